From 85bbb5d854049f5cc73ace1fadf9ac134bfd85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:50 +0000
Subject: [PATCH 01/17] fix: compressLogHeader returns the number of bytes
 written for 8-byte timestamp deltas

---
 runtime/Log.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..73d9b98 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -530,6 +530,7 @@ namespace Log {
     inline size_t
     compressLogHeader(const UncompressedEntry *re, char** out,
                         uint64_t lastTimestamp) {
+        char *start = *out;
         CompressedEntry *mo = reinterpret_cast<CompressedEntry*>(*out);
         *out += sizeof(CompressedEntry);
 
@@ -542,9 +543,7 @@ namespace Log {
                     BufferUtils::pack(out, static_cast<int64_t>(
                                             re->timestamp - lastTimestamp)));
 
-        return sizeof(CompressedEntry)
-                    + mo->additionalFmtIdBytes + 1
-                    + (0x7 & mo->additionalTimestampBytes);
+        return static_cast<size_t>(*out - start);
     }
 
     /**
-- 
2.43.0


From b53dd35cfdf3eb615b412af757bc3be759092fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:04 +0000
Subject: [PATCH 02/17] fix: print messages whose dynamic width or precision is
 negative

A negative '*' width or precision was taken for 'no such argument', so the
fragment's specifier consumed the wrong printf arguments.
---
 runtime/Log.cc | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..5b4af6c 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1249,9 +1249,10 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Dynamic width argument of the printf-specifier, nullptr if it has none
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      Dynamic precision argument of the printf-specifier, nullptr if it has
+ *      none
  */
 template<typename T>
 static inline void
@@ -1259,8 +1260,8 @@ printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
                const char* formatString,
                T arg,
-               int width = -1,
-               int precision = -1)
+               const int *width = nullptr,
+               const int *precision = nullptr)
 {
     logArguments.push(arg);
 
@@ -1271,14 +1272,16 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    // Negative widths and precisions are meaningful to printf (left-justify
+    // and no precision, respectively), so they have to be passed along as well.
+    if (!width && !precision) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
-        fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
-        fprintf(outputFd, formatString, width, precision, arg);
+    } else if (width && !precision)
+        fprintf(outputFd, formatString, *width, arg);
+    else if (width && precision)
+        fprintf(outputFd, formatString, *width, *precision, arg);
     else
-        fprintf(outputFd, formatString, precision, arg);
+        fprintf(outputFd, formatString, *precision, arg);
 
 #pragma GCC diagnostic pop
 }
@@ -1436,13 +1439,17 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
             const wchar_t *wstrArg;
 
-            int width = -1;
-            if (pf->hasDynamicWidth)
-                width = nb.getNext<int>();
+            int widthArg, precisionArg;
+            const int *width = nullptr, *precision = nullptr;
+            if (pf->hasDynamicWidth) {
+                widthArg = nb.getNext<int>();
+                width = &widthArg;
+            }
 
-            int precision = -1;
-            if (pf->hasDynamicPrecision)
-                precision = nb.getNext<int>();
+            if (pf->hasDynamicPrecision) {
+                precisionArg = nb.getNext<int>();
+                precision = &precisionArg;
+            }
 
             switch(pf->argType) {
                 case NONE:
-- 
2.43.0


From 121b927fc1b263fa8ab09aef0905507382a66f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 03/17] fix: do not read past the precision of a string
 argument

'%.Ns' and '%.*s' arguments need not be NULL terminated, but getArgSize ran
strlen/wcslen on them before applying the precision.
---
 runtime/NanoLogCpp17.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..b331c5c 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -17,6 +17,8 @@
 
 #include <cstdint>
 #include <cstring>
+#include <cwchar>
+#include <limits>
 
 #include <algorithm>
 #include <iostream>
@@ -609,20 +611,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
+    size_t maxLength = std::numeric_limits<size_t>::max();
 
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
     // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    if (fmtType >= ParamType::STRING)
+        maxLength = static_cast<uint32_t>(fmtType);
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        maxLength = previousPrecision;
+
+    // With a precision, the string need not be NULL terminated
+    stringBytes = strnlen(str, maxLength);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -639,20 +642,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
+    size_t maxLength = std::numeric_limits<size_t>::max();
 
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
     // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    if (fmtType >= ParamType::STRING)
+        maxLength = static_cast<uint32_t>(fmtType);
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
     // the previous parameter as the precision and truncate as necessary.
-    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+    else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION)
+        maxLength = previousPrecision;
+
+    // With a precision, the string need not be NULL terminated
+    stringBytes = wcsnlen(wstr, maxLength);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From cb18e8c4138d9da5b2bbcfc44fed0a38b8860feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 04/17] fix: log strings of signed and unsigned chars

'%s' with an (un)signed char pointer was staged as a bare pointer, which the
compaction then misread as a string with a length prefix.
---
 runtime/NanoLogCpp17.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index b331c5c..57967bc 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -437,6 +437,29 @@ store_argument(char **storage,
     return;
 }
 
+/**
+ * printf accepts strings of signed and unsigned chars for "%s" as well; treat
+ * them as "const char*" and leave all other arguments as they are.
+ */
+template<typename T>
+inline T asCharPtr(T arg) { return arg; }
+
+inline const char* asCharPtr(unsigned char *arg) {
+    return reinterpret_cast<const char*>(arg);
+}
+
+inline const char* asCharPtr(const unsigned char *arg) {
+    return reinterpret_cast<const char*>(arg);
+}
+
+inline const char* asCharPtr(signed char *arg) {
+    return reinterpret_cast<const char*>(arg);
+}
+
+inline const char* asCharPtr(const signed char *arg) {
+    return reinterpret_cast<const char*>(arg);
+}
+
 /**
  * Given a variable number of arguments to a NANO_LOG (i.e. printf-like)
  * statement, recursively unpack the arguments, store them to a buffer, and
@@ -476,7 +499,8 @@ store_arguments(const std::array<ParamType, N>& paramTypes,
                 Ts... rest)
 {
     // Peel off one argument to store, and then recursively process rest
-    store_argument(storage, head, paramTypes[argNum], stringBytes[argNum]);
+    store_argument(storage, asCharPtr(head), paramTypes[argNum],
+                   stringBytes[argNum]);
     store_arguments<argNum + 1>(paramTypes, stringBytes, storage, rest...);
 }
 
@@ -708,7 +732,7 @@ getArgSizes(const std::array<ParamType, N>& argFmtTypes,
             T1 head, Ts... rest)
 {
     return getArgSize(argFmtTypes[argNum], previousPrecision,
-                                                    stringSizes[argNum], head)
+                                         stringSizes[argNum], asCharPtr(head))
            + getArgSizes<argNum + 1>(argFmtTypes, previousPrecision,
                                                     stringSizes, rest...);
 }
-- 
2.43.0


From 85f517361cad6d584f2ac900d8b4f1f6ca3b6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 05/17] fix: forget the old dictionary before reading the new
 one

Decoder::open() on a second log read the new embedded dictionary behind the
old one, then reset the end and parsed the old bytes again.
---
 runtime/Log.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5b4af6c..17e8989 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -651,6 +651,12 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -658,12 +664,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From 46f5683fb5595000cdc884a2081c9f1cbf2699ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 06/17] fix: read specifiers that follow a backslash in a
 format string

createMicroCode() skipped the character behind every backslash, but printf and
the logging side know no such escape: NANO_LOG(NOTICE, "\\%d", i) recorded an
argument that the decompressor then did not expect.
---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 17e8989..5a5276c 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -866,12 +866,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From 96432cbaf8d88d1defc2ac43c6da4486f0f53c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:42 +0000
Subject: [PATCH 07/17] fix: accept a precision without digits in the
 decompressor

printf and the logging side take "%.f" and "%.s" as precision 0, but
createMicroCode() did not recognise the specifier and printed the piece without
its argument.
---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5a5276c..22be059 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -847,7 +847,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d+|\\*)?)?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 544307697e36acdb69afcbf8df71f8c957a43cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:39 +0000
Subject: [PATCH 08/17] fix: decode %Ld, %Lx and the like as long long

The compiler and the logging side accept L before an integer conversion, but the
decompressor did not know the type and lost the log statement's description.
---
 runtime/Log.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 22be059..3dad203 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -737,6 +737,7 @@ getFormatType(std::string length, char specifier)
         switch(length[0]) {
             case 'h': return short_int_t;
             case 'l': return long_int_t;
+            case 'L': return long_long_int_t;
             case 'j': return intmax_t_t;
             case 'z': return size_t_t;
             case 't': return ptrdiff_t_t;
@@ -759,6 +760,7 @@ getFormatType(std::string length, char specifier)
         switch(length[0]) {
             case 'h': return unsigned_short_int_t;
             case 'l': return unsigned_long_int_t;
+            case 'L': return unsigned_long_long_int_t;
             case 'j': return uintmax_t_t;
             case 'z': return size_t_t;
             case 't': return ptrdiff_t_t;
-- 
2.43.0


From 4f32838bc6a7a7a11eb62d2ba72b5a3f3a1472fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 09/17] fix: a buffer deleted during a scan no longer ends the
 pass early

When the buffer a pass had started with was deleted, the pass ended without
looking at the other buffers (index 0) or skipped one of them, so a sync could
complete while messages logged before it were still unwritten.
---
 runtime/RuntimeLogger.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..90d8864 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,12 +484,21 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
+                        // The buffer we started the pass with is gone, so the
+                        // pass (re)starts at the one that took its place.
+                        if (lastStagingBufferChecked == i) {
+                            if (i == threadBuffers.size()) {
+                                i = 0;
+                                wrapAround = true;
+                            }
+                            lastStagingBufferChecked = i;
+                            continue;
+                        }
+
                         // Back up the indexes so that we ensure we wont skip
                         // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        if (lastStagingBufferChecked > i)
                             --lastStagingBufferChecked;
-                        }
                         --i;
                     }
                 }
-- 
2.43.0


From 02fd7aceacebf68c4623495ba662ae799af825f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 10/17] fix: an interrupted aio_suspend is not a completed
 write

aio_suspend returns EINTR when a signal arrives; the write is still going on,
but the buffer was reused and the write reported as complete.
---
 runtime/RuntimeLogger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 90d8864..90dbe5e 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -550,7 +550,10 @@ RuntimeLogger::compressionThreadMain() {
                     // If the output buffer is full and we're not done,
                     // wait for completion
                     cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
-                    int err = aio_suspend(aiocb_list, 1, NULL);
+                    int err;
+                    do {
+                        err = aio_suspend(aiocb_list, 1, NULL);
+                    } while (err != 0 && errno == EINTR);
                     cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
                     if (err != 0)
                         perror("LogCompressor's Posix AIO "
-- 
2.43.0


From 65b578960f46768c792ac7831c7a702d0b835b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 11/17] fix: sync() waits for the sync to complete, not for any
 wakeup

A condition variable may wake up spuriously, and sync() then returned before
anything was written.
---
 runtime/RuntimeLogger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 90dbe5e..49a900b 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -737,7 +737,9 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+    nanoLogSingleton.hintSyncCompleted.wait(lock, [] {
+        return nanoLogSingleton.syncStatus == SYNC_COMPLETED;
+    });
 }
 
 /**
-- 
2.43.0


From cd9ed6c22200de7b2c49d2f6509cbd4ba6cb2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:30 +0000
Subject: [PATCH 12/17] fix: decompressTo took extents without messages for the
 earliest ones

A BufferExtent can hold no log messages (the producer's buffer had no complete
message). decompressTo kept such fragments in its stages and compared them by
a stale timestamp, which put messages out of order.
---
 runtime/Log.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 3dad203..c063420 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1859,8 +1859,11 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
-                    if (good)
+                    // Extents without log messages have no place in time
+                    if (good && bf->hasNext())
                         stages[stagesBuffered].push_back(bf);
+                    else
+                        freeBufferFragment(bf);
 
                     break;
                 }
-- 
2.43.0


From 030fba43366ead883403b00639ad018f42011c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:30 +0000
Subject: [PATCH 13/17] fix: decompressTo dropped buffered messages when the
 file is cut off

A corrupt or cut off entry left up to two stages of complete extents
unprinted: only the end of the file depleted all stages. Stages left without
messages no longer count as buffered.
---
 runtime/Log.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index c063420..aca0279 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1895,13 +1895,13 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     break;
             }
 
-            if (feof(inputFd))
+            if (feof(inputFd) || !good)
                 mustDepleteAllStages = true;
 
             // If we reach a logical end to the current stage,
             // make the current stage available for consumption
-            bool needFlush = (mustDepleteAllStages || !good);
-            if (newStage || (needFlush && !stages[stagesBuffered].empty()))
+            if ((newStage || mustDepleteAllStages)
+                                    && !stages[stagesBuffered].empty())
                 ++stagesBuffered;
 
             if (stagesBuffered == stagesToBuffer)
-- 
2.43.0


From e92100c1ab7df358158069c560878357a1882a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:30 +0000
Subject: [PATCH 14/17] fix: decompressTo left stages behind that were depleted
 out of turn

Later stages can run empty along with the first one; printing then stopped
being ordered over three stages, and a checkpoint was read (with its new
dictionary) while messages of the old one were still buffered.
---
 runtime/Log.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index aca0279..0311284 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1955,14 +1955,19 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 freeBufferFragment(bf);
             }
 
-            // Step 3c: Check for exit condition
+            // Step 3c: Check for exit condition. Later stages may have been
+            // depleted along with the first one; the next stage to deplete
+            // is the first one that still has log messages.
             if (stages[0].empty()) {
-                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
-                    stages[i] = stages[i+1];
+                while (stagesBuffered > 0 && stages[0].empty()) {
+                    for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
+                        stages[i] = stages[i+1];
+                    }
+                    stages[stagesBuffered - 1].clear();
+
+                    --stagesBuffered;
                 }
-                stages[stagesBuffered - 1].clear();
 
-                --stagesBuffered;
                 if (!mustDepleteAllStages)
                     break;
             }
-- 
2.43.0


From b96e1018fa0a72062dcd0c041dd6db132466ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:44 +0000
Subject: [PATCH 15/17] fix: a decoder opened again printed the rest of the
 file before

open() kept the buffer extent the iteration over the previous file had
stopped in (its messages came out first, described by the new file's
dictionary) and leaked the previous file.
---
 runtime/Log.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 0311284..15a03b1 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1080,6 +1080,11 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Whatever is left of a previously opened file is of no interest anymore
+    if (inputFd)
+        fclose(inputFd);
+    bufferFragment->reset();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From 01194994d7567344195b783301db03a1ad04c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 16/17] fix: a full output buffer at the last thread was taken
 for a new pass

When the output filled up while the last staging buffer was processed, the
index still advanced to 0 and the rest of that buffer was marked as the start
of a new pass, which makes the decompressor's window of passes shorter.
---
 runtime/RuntimeLogger.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 49a900b..8733b1a 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -471,6 +471,10 @@ RuntimeLogger::compressionThreadMain() {
                     }
                     cyclesCompressing += PerfUtils::Cycles::rdtsc() - start;
                     lock.lock();
+
+                    // The scan resumes with this buffer, so it's not passed
+                    if (outputBufferFull)
+                        break;
                 } else {
                     // If there's no work, check if we're supposed to delete
                     // the stagingBuffer
-- 
2.43.0


From f641533a0cfef9b433825e46e31858928fbdcf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:47 +0000
Subject: [PATCH 17/17] fix: wide strings in a log were handed to the C library
 unaligned

---
 runtime/Log.cc | 48 +++++++++++++++++-------------------------------
 runtime/Log.h  |  6 ++++++
 2 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 15a03b1..5e206c6 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1162,6 +1162,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , wideStrings()
 {
 }
 
@@ -1414,6 +1415,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         const char *logLevel = logLevelNames[metadata->logLevel];
 
         logArgs.reset(metadata, nextLogId, nextLogTimestamp);
+        wideStrings.clear();
 
         // Output the context
         if (outputFd) {
@@ -1619,43 +1621,27 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                {
+                    // Strings are packed without regard to alignment, but the
+                    // wide character functions in the C library (including
+                    // printf) require it, so we have to work on a copy.
+                    wideStrings.emplace_back();
+                    std::vector<wchar_t> &wstr = wideStrings.back();
+                    wchar_t wchar;
+                    do {
+                        std::memcpy(&wchar, nextStringArg, sizeof(wchar_t));
+                        nextStringArg += sizeof(wchar_t);
+                        wstr.push_back(wchar);
+                    } while (wchar != L'\0');
+
+                    wstrArg = wstr.data();
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
                                    wstrArg,
                                    width, precision);
-                    // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
                     break;
+                }
 
                 case MAX_FORMAT_TYPE:
                 default:
diff --git a/runtime/Log.h b/runtime/Log.h
index 73d9b98..75b5621 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -907,6 +907,10 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // Aligned copies of the wide strings in the log message that was
+            // decompressed last.
+            std::vector<std::vector<wchar_t>> wideStrings;
+
             BufferFragment();
             void reset();
             bool hasNext();
@@ -919,6 +923,8 @@ namespace Log {
                                  long aggregationFilterId=-1,
                                  void (*aggregationFn)(const char*, ...)=NULL);
             uint64_t getNextLogTimestamp() const;
+
+            DISALLOW_COPY_AND_ASSIGN(BufferFragment);
         };
 
         static bool compareBufferFragments(const BufferFragment *a,
-- 
2.43.0

