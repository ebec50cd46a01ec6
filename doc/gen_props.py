#!/usr/bin/env python3
"""writes ../properties.jsonl (kept as a script only so the text stays readable)"""
import json, os
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
R = []
R.append(P("P01", "Packed arguments decode to exactly the value that was logged",
 "Every integer, floating-point or pointer argument that the compactor packs is recovered bit for bit by the decompressor, whatever its value and type. The decompressor consumes exactly the bytes the compactor produced, so that the following arguments stay aligned, and neither side touches memory outside the space the encoding accounts for.",
 ["inputs"], "all 2^8..2^64 values of every packable C type, alone and in any sequence",
 "PackerTest samples a few dozen boundary values per type; an error in one width, one sign or one byte boundary is one of 2^64 inputs.",
 ["runtime/Packer.h"], [("variable-length integer packing, negation trick, nibble codes", "runtime/Packer.h:pack, unpack"), ("nibble stream reader", "runtime/Packer.h:Nibbler")],
 observe=["pack/unpack and the nibble reader"]))
R.append(P("P02", "Log framing round-trips: message headers, extents, checkpoints",
 "Every message header, buffer extent marker and time checkpoint the runtime writes is read back by the decompressor with the identical log-site id, timestamp, buffer id, pass marker and clock mapping, consuming exactly the bytes written. Nothing is written beyond the space offered, and a marker cut short by a truncated file is refused rather than misread.",
 ["inputs", "crash_points"], "all ids, all 64-bit timestamps (earlier or later than the previous one), all buffer ids, all clock values, all buffer capacities, every truncation point of a marker",
 "Tests use a handful of small ids and timestamps; widths above 32 bits, negative deltas and tight buffers are not enumerated.",
 ["runtime/Log.h", "runtime/Log.cc"], [("message header delta coding", "runtime/Log.h:compressLogHeader/decompressLogHeader"), ("extent header", "runtime/Log.cc:encodeBufferExtentStart, BufferFragment::readBufferExtent"), ("checkpoint", "runtime/Log.cc:insertCheckpoint, runtime/Log.h:readCheckpoint")]))
R.append(P("P03", "The persisted dictionary restores every log statement's identity",
 "For any set of log statements the dictionary written to the log gives back, under the same id and in the same order, each statement's exact file name, line number, severity and format string, even when the dictionary is written in several pieces because the output buffer fills up. Each statement is written exactly once, never past the end of the buffer, and starting a new log file makes the decompressor forget the previous dictionary.",
 ["inputs", "histories"], "all file names, format strings, lines, severities and ids; all buffer capacities; any split over several fragments and any number of re-opened or appended logs",
 "Tests persist two or three fixed statements into large buffers and one split point.",
 ["runtime/Log.cc"], [("dictionary fragments", "runtime/Log.cc:encodeNewDictionaryEntries, readDictionaryFragment"), ("dictionary reset", "runtime/Log.cc:readDictionary, Decoder::open")],
 [("id to statement table", "index order is the log id", "runtime/Log.cc: fmtId2metadata, fmtId2fmtString")]))
R.append(P("P04", "Compaction moves whole messages only: none lost, repeated, reordered or split",
 "Whatever messages wait in a staging buffer and however little room is left in the output buffer, compaction encodes a prefix of whole messages in their original order, reports exactly the bytes it took, and frames exactly the bytes it wrote. It never writes past the output buffer, and stops early only when the next message might not fit or its log statement is not yet known.",
 ["inputs", "histories"], "any number of messages of any size, ids and timestamps; any output capacity and fill level; any compressed size an argument compressor may legally produce",
 "LogTest encodes one to three fixed messages with ample or a single tight buffer size.",
 ["runtime/Log.cc", "runtime/Log.h"], [("worst-case space check before each message", "runtime/Log.cc:Encoder::encodeLogMsgs"), ("delayed extent length", "runtime/Log.cc:encodeLogMsgs currentExtentSize"), ("buffer hand-over", "runtime/Log.cc:Encoder::swapBuffer")]))
R.append(P("P05", "Every argument of a log call reaches the log intact and within its reservation",
 "For any log statement and any argument values, the space the logging call reserves is exactly the space it fills, strings are cut exactly where printf would cut them, and after compaction the decompressor reads back the same values and strings in the same order. The logging call reads no argument memory that printf would not read.",
 ["inputs", "programs"], "all argument values, string lengths and contents, static and dynamic precisions, and argument type sequences",
 "Unit tests exercise fixed strings and numbers for about twenty statements; sizes, precisions and contents are sampled.",
 ["runtime/NanoLogCpp17.h", "runtime/Packer.h", "runtime/Log.cc"], [("argument sizing", "runtime/NanoLogCpp17.h:getArgSize(s)"), ("argument recording", "runtime/NanoLogCpp17.h:store_argument(s)"), ("two-pass compaction", "runtime/NanoLogCpp17.h:compressSingle, compress"), ("logging call", "runtime/NanoLogCpp17.h:log")]))
R.append(P("P06", "A thread's staging buffer is a loss-free FIFO under every interleaving",
 "The consumer sees exactly the bytes the logging thread has committed, in order, each once, and never bytes that are uncommitted, stale or past the recorded end, however the two threads interleave. Space is handed to the logging thread only when the consumer has finished with it, a reservation is always contiguous and inside the buffer, and a buffer is discarded only after its owner is gone and everything in it was consumed.",
 ["schedules", "inputs"], "every interleaving of one logging thread and the background thread at each shared-memory access; every reservation size and buffer position",
 "Tests are single threaded on this class or hit a few interleavings by chance.",
 ["runtime/RuntimeLogger.h", "runtime/RuntimeLogger.cc"], [("reserve, commit", "runtime/RuntimeLogger.h:reserveProducerSpace, finishReservation; RuntimeLogger.cc:reserveSpaceInternal"), ("peek, consume", "runtime/RuntimeLogger.cc:peek; RuntimeLogger.h:consume"), ("deletion", "runtime/RuntimeLogger.h:checkCanDelete, StagingBufferDestroyer")],
 [("producer/consumer positions", "equal means empty; wrap marker bounds the upper part", "runtime/RuntimeLogger.h:StagingBuffer")]))
R.append(P("P07", "The logging side and the decompressor read a format string the same way",
 "For every valid printf format string the logging macro accepts, the decompressor derives the same number, order and kind of arguments (plain value, string, dynamic width, dynamic precision) as the logging side recorded, and its output pieces joined together are the format string itself.",
 ["inputs", "programs"], "all printf format strings valid in C (with glibc's L for long long) that the macro accepts",
 "Two independently written parsers are compared by tests on about thirty format strings.",
 ["runtime/NanoLogCpp17.h", "runtime/Log.cc"], [("compile-time parser", "runtime/NanoLogCpp17.h:getParamInfo, countFmtParams, getNumNibblesNeeded"), ("decompressor's parser", "runtime/Log.cc:createMicroCode, getFormatType")]))
R.append(P("P08", "A decompressed message prints exactly what printf would have printed",
 "For every recorded message the decompressor prints its context (time, file, line, severity, buffer id) and then passes each piece of the format string to printf with exactly the argument types and values, widths and precisions of the original call, in order. The arguments handed to programmatic readers are the same values, for any number of arguments.",
 ["inputs", "programs"], "all argument types and values, including negative dynamic widths and precisions, any number of arguments, all timestamps before or after the checkpoint",
 "Tests compare the text of a few dozen messages.",
 ["runtime/Log.cc", "runtime/Log.h"], [("statement interpreter", "runtime/Log.cc:decompressNextLogStatement, printSingleArg"), ("argument container", "runtime/Log.h:LogMessage::push/get; runtime/Log.cc:LogMessage::reserve")]))
R.append(P("P09", "Decompression outputs every logged message once, in time order",
 "Decompressing a log outputs every message of every complete extent exactly once; messages from one thread stay in their original order, and messages are merged by timestamp across threads: a log is a sequence of stages, each ending with an extent marked as the start of a new pass, and if no message is earlier than one three or more stages before it, the output of an ordered decompression is in time order (messages with equal timestamps come in any order). A decoder opened again prints nothing of the file before. Dictionary changes and appended logs in the middle of a file apply only to the messages that follow them.",
 ["histories", "inputs", "crash_points"], "any sequence of extents, pass markers, dictionary pieces and appended logs, any timestamps, and a file cut off at any point",
 "Tests decode a few fixed files with two or three extents.",
 ["runtime/Log.cc"], [("three-stage merge", "runtime/Log.cc:internalDecompressUnordered, decompressTo"), ("iteration", "runtime/Log.cc:getNextLogStatement, readBufferExtent")]))
R.append(P("P10", "Everything logged before a sync is handed to the log file, once and in order",
 "Every message committed by any thread is written to the current log file exactly once and, per thread, in order, whatever the number of threads, buffer sizes and output completions. A sync does not return before all messages logged before it have been completely written, and closing or switching the log file loses and duplicates nothing and starts the new file with its own checkpoint and dictionary.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of logging threads, background thread and output completions; all sequences of log, sync, switch-file and thread exit",
 "Tests run a few threads for a short time under one scheduler.",
 ["runtime/RuntimeLogger.cc"], [("scan, compact, write loop", "runtime/RuntimeLogger.cc:compressionThreadMain"), ("sync protocol", "runtime/RuntimeLogger.cc:sync, compressionThreadMain, waitForAIO"), ("file switch", "runtime/RuntimeLogger.cc:setLogFile_internal")]))
R.append(P("P11", "The log level decides exactly which messages are recorded",
 "A message is recorded if and only if its severity is at least as important as the current log level, and a dropped message has no effect on the log. Any requested level, in or out of range, results in a valid level: out-of-range requests are clamped to the nearest valid one.",
 ["inputs", "histories"], "all severities, all integer level requests, any order of level changes and log calls",
 "Tests try a few levels.",
 ["runtime/RuntimeLogger.cc", "runtime/RuntimeLogger.h", "runtime/NanoLogCpp17.h", "runtime/NanoLog.cc"], [("clamping", "runtime/RuntimeLogger.cc:setLogLevel"), ("filter", "runtime/NanoLogCpp17.h:NANO_LOG")]))
R.append(P("P12", "Each log statement gets one id of its own, however many threads race to use it",
 "Whatever threads execute a log statement for the first time at the same moment, the statement receives exactly one id, no two statements share an id, ids are dense in registration order, and the id always leads back to that statement's own description.",
 ["schedules", "histories"], "any number of statements and any interleaving of first uses",
 "Tests register statements from one thread.",
 ["runtime/RuntimeLogger.h", "runtime/NanoLogCpp17.h"], [("registration under a lock with a re-check", "runtime/RuntimeLogger.h:registerInvocationSite_internal")]))
R.append(P("P13", "Code generated by the preprocessor records and restores arguments faithfully",
 "For every log statement the preprocessor rewrites, the generated recording, compaction and printing functions agree: the space reserved equals the space written, and the values printed by the decompressor are those passed to the log call, whatever their values, string lengths and precisions.",
 ["programs", "inputs"], "all log statements the preprocessor accepts and all argument values",
 "Integration tests compare the text of a fixed program.",
 ["preprocessor/FunctionGenerator.py", "preprocessor/parser.py", "runtime/Log.h"], [("generated record/compress/decompress functions", "preprocessor/FunctionGenerator.py:generateLogFunctions"), ("generated dictionary", "preprocessor/FunctionGenerator.py:outputCompilationFiles")]))
R.append(P("P14", "The preprocessor changes nothing in a source file except its log calls",
 "For every C++ source file the preprocessor rewrites exactly the genuine log statements (not those in comments or string literals), passes each statement's arguments on unchanged, and leaves all other text and the line numbering as they were.",
 ["inputs", "programs"], "all preprocessed C++ translation units",
 "Python unit tests cover a few dozen snippets.",
 ["preprocessor/parser.py"], [("text scanner", "preprocessor/parser.py:processFile, parseLogStatement")]))
R.append(P("P15", "Time conversions map cycle counts to wall time consistently",
 "Converting cycle counts to seconds, milliseconds, microseconds or nanoseconds and back agrees with the measured frequency within rounding, and never depends on earlier conversions; an explicitly supplied frequency takes precedence over the measured one.",
 ["inputs"], "all 64-bit cycle counts and positive frequencies",
 "Only a few fixed conversions run, indirectly.",
 ["runtime/Cycles.cc", "runtime/Cycles.h"], [("conversions", "runtime/Cycles.cc:toSeconds, toMicroseconds, toNanoseconds, fromNanoseconds, fromSeconds")]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in R: f.write(json.dumps(r) + "\n")
