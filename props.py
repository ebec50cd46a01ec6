import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
TRUSTED = ["clang 18 front end (C++ to LLVM IR) and opt passes sroa, mem2reg, simplifycfg",
           "vfe, the VC generator in /verif/engine", "z3 5.3.2",
           "bodies given to libc functions in /verif/rt/vf_lib.c and by the engine (malloc, memcpy, memset)"]
ASSUMPTIONS = ["distinct objects live at distinct, non-adjacent addresses; allocation succeeds",
               "machine integers are exact bit-vectors; floating-point arithmetic on symbolic operands is an uninterpreted function of the bits",
               "the code g++ -O3 generates behaves as the unoptimised LLVM IR of the same source"]

def is_repo_fn(f):
    return bool(re.search(r"NanoLog|BufferUtils|PerfUtils|Log::", f)) and not f.startswith("std::vector") and not f.startswith("void std::")

def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == pid: r.append(m.group(2))
    return r

def U(name, entries, **kw):
    d = {"name": name, "src": name + ".cc", "entries": entries}
    d.update(kw)
    return d

def PP(name, entries, **kw):       # the same contracts on the code compiled with -DPREPROCESSOR_NANOLOG
    return U(name + "_pp", entries, src=name + ".cc", flags=["-DPREPROCESSOR_NANOLOG"], label=" (preprocessor)", **kw)

PROPS = {}
PROPS["P01"] = {"level": "proof", "units": [U("packer", ["prove_*"])],
  "note": "Proved for all values of every packable type (all paths, no bound); nibble streams of up to the stated length are unrolled. Trusts clang's IR, the VC generator and z3."}
PROPS["P02"] = {"level": "proof", "units": [U("logfmt", ["prove_*"], instrument=True)],
  "note": "Proved for all ids, timestamps, buffer ids, clock values and capacities. In-memory FILE stands in for libc I/O."}
PROPS["P04"] = {"level": "proof", "units": [U("encoder", ["prove_*"]), PP("encoder", ["prove_encode_msgs_any_long", "prove_encode_msgs_2"], entries_thorough=["prove_encode_msgs_any_short"])], "bounded_entries": ["prove_encode_msgs_2"],
  "assumptions": ["termination of the cut loop is not proved"],
  "note": "Proved for any number of messages by an inferred, checked loop invariant; header writer and argument compressors by contract; input and output buffers up to 1 MB. One extra two-message contract is bounded and only serves counterexamples."}
PROPS["P05"] = {"level": "proof", "units": [U("args", ["prove_rec_*"], instrument=True)], "heavy": ["*mix*", "*str2", "*strwidth"],
  "assumptions": ["the log sites of contracts/args.cc cover every argument class the templates distinguish (each specialisation of getArgSize, store_argument, compressSingle); strings shorter than 2^19 - 64 characters (wide: 2^17), so that a message fits the staging buffer"],
  "note": "Proved per log site, for all argument values and string contents of any length below 2^19 - 64: reservation, staging layout, frame, compaction size contract and decode."}
PROPS["P08"] = {"level": "proof", "units": [U("args", ["prove_e2e_*"], instrument=True), U("logmsg", ["prove_*"])], "heavy": ["*mix*", "*str2", "*strwidth", "prove_push*"],
  "assumptions": ["end-to-end sites: string arguments up to 3 characters (longer ones by P05); wall-clock time for one clock mapping (floating point is uninterpreted)"],
  "note": "Proved per log site, for all numeric values: the exact sequence of printf calls the decompressor makes, through the real encoder, dictionary and decoder; argument container for any number of arguments."}
PROPS["P03"] = {"level": "proof", "units": [U("dict", ["prove_*"])], "bounded_entries": ["prove_roundtrip*", "prove_truncated", "prove_open*", "prove_long*", "prove_readDictionary*"],
  "assumptions": ["at most two pending statements per call of encodeNewDictionaryEntries (its loop treats each alike); file names and format strings shorter than 64K", "the reading side is unrolled for strings of 0-2 arbitrary characters and for long constant strings around the 10K static buffer"],
  "note": "Writer proved for all strings, lines, severities, start positions and rooms (two entries unrolled); reader and reopening bounded as stated."}
PROPS["P06"] = {"level": "proof", "units": [U("staging", ["prove_*"], instrument=True)], "heavy": ["prove_reserve*"],
  "assumptions": ["sequentially consistent interleaving at each access to a shared position, plus the obligation that a barrier separates message bytes, recorded end and positions (x86-TSO keeps the rest)",
                  "the caller writes only inside its reservation (P05) and consumes only what it peeked (P10)",
                  "reservations smaller than the staging buffer (a larger one can never be granted)",
                  "the waiting loop is proved by induction: every iteration starts in an arbitrary state of the invariant; up to six reads of the consumer's position per iteration"],
  "note": "Rely/guarantee proof: every operation from every state of the queue invariant, the other thread taking any number of its own proved steps before each shared access. No bound on buffer contents, history or schedule."}
PROPS["P07"] = {"level": "other", "units": [U("fmt", ["prove_*"])], "bounded_entries": ["prove_*"],
  "assumptions": ["format strings with up to three specifiers, each specifier exhaustive over flags, width, precision, length and terminal classes; text between them up to six characters"],
  "note": "Both real parsers are checked against the C meaning of the string, case-split over the whole specifier grammar with arbitrary text characters; bounded in the number of specifiers, hence not counted as proof."}
PROPS["P11"] = {"level": "proof", "units": [U("level", ["prove_level*", "prove_set_level", "prove_default_level"], instrument=True)],
  "note": "Proved for every level value passed to setLogLevel (all 2^32) and every valid current level, through the real NANO_LOG macro at each of the four severities."}
PROPS["P12"] = {"level": "proof", "units": [U("level", ["prove_register*", "prove_race"], instrument=True)], "bounded_entries": ["prove_register_grow", "prove_race"],
  "assumptions": ["std::vector relocates its elements correctly beyond three of them (the growing case is unrolled)"],
  "note": "registerInvocationSite proved against its contract for a registry of any size with any number of statements registered by other threads before it takes the lock; the macro with racing threads is unrolled to three executions."}
PROPS["P10"] = {"level": "other", "units": [U("bg", ["prove_*"], instrument=True), PP("bg", ["prove_bg_full", "prove_bg_full_sync", "prove_bg_wrap", "prove_bg_exit", "prove_bg_dict"], instrument=True), U("sync", ["prove_*"], instrument=True)], "bounded_entries": ["prove_bg_*"], "heavy": ["prove_bg_live", "prove_bg_sync*"],
  "assumptions": ["at most two logging threads registered at any time with threads starting and ending freely, three with threads only starting or only ending; one or two unread messages per buffer (P06 and P02-P04 cover what happens inside them)",
                  "output operations finish eventually and write everything they were given: disk errors and short writes are excluded",
                  "other threads act where the background thread can observe them: at locks, at peek, at the examination of a buffer and at completions (the unlocked reads of the sync state and of the number of registered statements included)"],
  "note": "The background thread's loop is decided by closure: all states reachable at a lock or peek form an invariant, for any number of iterations, messages, syncs, completions; bounded only in the number of threads registered at once, hence not counted as proof. sync, setLogFile, constructor and destructor by contract, for all schedules."}
PROPS["P09"] = {"level": "other", "units": [dict(U("merge", ["prove_compare", "prove_times", "prove_times_2", "prove_order_1", "prove_order_once_2", "prove_sections", "prove_sections_2", "prove_unordered", "prove_iterate", "prove_open"], instrument=True), entries_thorough=["prove_order_2", "prove_order_3", "prove_order_6", "prove_order_once_3"])],
  "bounded_entries": ["prove_order_*", "prove_times*", "prove_sections*"], "heavy": ["prove_order_once*", "prove_times*", "prove_sections_2"],
  "assumptions": ["within an extent timestamps do not decrease (P04); a message three or more stages (pass markers) later in the file than another is not earlier (otherwise no order is promised)",
                  "ordered decompression: any number of stages and messages, one extent per stage, two in one stage or in the first of those buffered (thorough: two in every stage, three in one)",
                  "callees by contract: reading extents (P02), dictionaries (P03) and messages (P08)"],
  "note": "decompressTo, the unordered variant and the iterator are decided by closure against their callees' contracts for any sequence of entries, cut off anywhere: every message of every complete extent once, with its own dictionary, and (0/1 argument over an arbitrary time threshold) in time order. Bounded only in the number of extents per stage, hence not counted as proof."}
NOT_APPLICABLE = {
 "P14": "the scanner is Python text processing driven by regular expressions over unbounded source text; no deductive verifier for Python is available here",
}
for _i in ["P03", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P13", "P15"]:
    NOT_APPLICABLE.setdefault(_i, "contracts not built yet")
if os.environ.get("VF_PROBE"): PROPS["P99"] = {"level": "proof", "note": "", "units": [U(os.environ["VF_PROBE"], ["prove_*"], instrument=True)]}
