"""The checks: which harnesses are built how, and run with which bounds."""
import os

CORES = 8
STD = ["-std=c++11", "-mcx16", "-w"]
LINK = ["-latomic", "-pthread"]
ASAN = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
ASAN_L = ["-fsanitize=address,undefined"]

def inc(c): return ["-I" + c["src"], "-I" + os.path.join(c["v"], "lib"), "-I" + os.path.join(c["v"], "harness"), "-I" + os.path.join(c["v"], "sched")]
def H(c, n): return os.path.join(c["v"], "harness", n)

def build(c, name, srcs, flags=(), cxx="g++", link=(), std=STD, **kw):
    return dict(name=name, srcs=[s if isinstance(s, tuple) else H(c, s) if not os.path.isabs(s) else s for s in srcs], cxx=cxx,
                flags=std + list(flags) + inc(c), link=list(link) + LINK, **kw)

def run(name, b, quick, thorough, args=(), **kw):
    return dict(name=name, build=b, cases=dict(quick=quick, thorough=thorough), args=list(args), **kw)

CHECKS = {}
def check(pid):
    def deco(f): CHECKS[pid] = f; return f
    return deco
def get(pid, c): return CHECKS[pid](c)

TECH = {
 "C01": ("runtime monitoring: online deque-model oracle, ASan/UBSan", "Enumerates all short operation sequences for small capacities and samples long random histories; every result is compared with a deque model. Bounded by the explored histories."),
 "C02": ("runtime monitoring: online deque-model oracle per buffer, junk-filled freed memory, ASan/UBSan", "Samples histories of up to 4 buffers with assignments, destruction and writers; bounded by the explored histories."),
 "C03": ("sanitizers: gcc and clang ASan+UBSan, clang MSan, over random API histories", "The sanitizers decide on executed code only; use of uninitialised memory outside instrumented code is not seen."),
 "C04": ("runtime monitoring: online deque-model oracle, junk-filled freed writers, ASan/UBSan", "Enumerates all short sequences for small capacities, samples long ones."),
 "C05": ("runtime monitoring under a controlled scheduler: offline conservation/order/linearisation oracle over the recorded history, arena and red-zone access monitor", "Interleavings are sequentially consistent and are explored by random walk, PCT, exhaustive bounded preemption of small scenarios, and long suspensions; the optimised library on real threads adds samples of what the hardware does."),
 "C06": ("runtime monitoring under a controlled scheduler and a virtual clock: oracle over recorded clock readings and buffer order", "Interleavings as for C05; clocks are virtual."),
 "C07": ("runtime monitoring under a controlled scheduler: linearizability oracle of recorded observations", "Interleavings as for C05."),
 "C08": ("runtime monitoring: online (next, synchronised) reader-model oracle, ASan/UBSan", "Enumerates all short sequences for small capacities, samples long ones."),
 "C09": ("runtime monitoring under a controlled scheduler: delivery/loss oracle over the recorded history", "Interleavings as for C05."),
 "C10": ("runtime monitoring: state digests around every reader operation and differential replay without readers", "Sampled histories."),
 "C11": ("runtime monitoring: online list-model oracle of the cursor, ASan/UBSan", "Enumerates all windows of small rings, samples histories."),
 "C12": ("runtime monitoring: online semantic oracle per operator node over generated formulas and traces", "Sampled formulas and traces, all evaluation points of each trace."),
 "C13": ("runtime monitoring: online semantic oracle per operator node over generated formulas and traces", "Sampled formulas and traces, all evaluation points of each trace."),
 "C14": ("runtime monitoring: online exact-integration oracle over generated formulas and traces", "Sampled formulas and traces, all evaluation points of each trace."),
 "C15": ("runtime monitoring: metamorphic prefix oracle over recorded verdicts", "Every prefix of sampled traces."),
 "C16": ("runtime monitoring: state snapshots around every evaluation, repeated evaluation", "Sampled formulas and traces."),
 "C17": ("runtime monitoring: truth-table oracle over generated textual compositions", "Sampled compositions, all operand values of each."),
 "C18": ("runtime monitoring: metamorphic oracle over placements of a trace in ring and time", "Sampled formulas, traces and placements."),
 "C19": ("runtime monitoring: per-operation value oracle, ASan/UBSan", "Sampled and boundary operand pairs of eight data types."),
 "C20": ("runtime monitoring: 128-bit arithmetic oracle, interposed clock, ASan/UBSan", "Sampled and boundary operand pairs."),
 "C21": ("runtime monitoring in virtual time under a controlled scheduler: release-time oracle over recorded job starts", "Sampled schedules, periods, delays, spurious wake-ups."),
 "C22": ("runtime monitoring in virtual time under a controlled scheduler: life-cycle oracle over recorded control operations and job starts", "Sampled and bounded-preemption schedules."),
 "C23": ("runtime monitoring under a controlled scheduler: online verdicts against the offline verdict of the recorded history", "Sampled formulas, histories and schedules."),
 "C24": ("runtime monitoring: differential digests of result logs across build configurations", "Sampled histories and formulas in each configuration."),
 "C25": ("runtime monitoring under a controlled scheduler with suspended threads: step-count and progress oracle", "Every suspension point of single calls in small scenarios; sampled combinations otherwise. Sequentially consistent interleavings."),
 "C26": ("runtime monitoring: differential digests alone against interleaved (controlled scheduler), and ThreadSanitizer on real threads", "Sampled histories, formulas and schedules."),
}

@check("C01")
def c01(c):
    return dict(
        builds=[build(c, "asan", ["seq_buffer.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["seq_buffer.cpp"], ["-O2"])],
        runs=[run("enum", "opt", 4 * 3**10, 4 * 3**12, ["enum=" + ("10" if c["tier"] == "quick" else "12")]),
              run("random", "asan", 24000, 400000),
              run("random-opt", "opt", 40000, 1000000, ["variant=1"])],
        rule="every push/pull/pop sequence of length 10 (12) for N=1..4, and random histories (element types int, u8, short, long long, 24-byte struct; N from 1 to 256; op mixes, bursts, attached writers, in- and out-of-range index reads/writes, debug output); after every operation state, length and all held slots are compared with a deque. Distinct: different sequences of (operation, bottom, top, full).",
        require=["overflows", "empty_takes", "pulls", "pops", "oob_reads", "oob_writes", "writes"])

@check("C02")
def c02(c):
    return dict(
        builds=[build(c, "asan", ["seq_assign.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["seq_assign.cpp"], ["-O2"])],
        runs=[run("random", "asan", 24000, 400000), run("random-opt", "opt", 160000, 2000000, ["variant=1"])],
        rule="random histories over 2-4 heap-allocated buffers: direct pushes or pushes by attached writers (one way per buffer), pulls, pops, assignments (also self and chained), writers and buffers destroyed (memory filled with junk) and recreated; after every operation the contents of every buffer are compared with a deque each. Distinct: different operation sequences with different fill levels.",
        require=["assign_from_direct_full", "assign_from_writer_full", "assign_from_writer", "self_assignments", "buffers_destroyed", "writers_destroyed"])

@check("C04")
def c04(c):
    return dict(
        builds=[build(c, "asan", ["seq_writers.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["seq_writers.cpp"], ["-O2"])],
        runs=[run("enum", "opt", 3 * 6**6, 3 * 6**8, ["enum=" + ("6" if c["tier"] == "quick" else "8")]),
              run("random", "asan", 24000, 400000), run("random-opt", "opt", 120000, 2000000, ["variant=1"])],
        rule="every sequence of length 6 (8) over push by two writers, pull, pop, replacing either writer, N=1..3, and random histories with up to 300 heap-allocated writers (memory filled with junk on destruction), stamping and non-stamping pushes, direct pushes and index writes in between, pulls and pops; after every operation the contents are compared with a deque. Distinct: different sequences of operation and fill level.",
        require=["overflows", "writers_destroyed", "pulls", "pops", "pushes", "push_alls", "direct_pushes", "writes"])

@check("C03")
def c03(c):
    G = lambda n, fl, san="address,undefined", cxx="g++", **k: build(c, n, ["soup.cpp"], ["-g1", "-fno-omit-frame-pointer", "-fsanitize=" + san, "-fno-sanitize-recover=all"] + fl, cxx=cxx, link=["-fsanitize=" + san], **k)
    dbg = ["-DRTMLIB_DEBUG=3", "-DRTMLIB_ENABLE_DEBUGV_RMTLD3", "-DRTMLIB_ENABLE_DEBUG_RMTLD3"]
    return dict(
        builds=[G("gcc-asan", ["-O1"]), G("gcc-asan-debug3", ["-O0"] + dbg), G("gcc-asan-debug1", ["-O1", "-DRTMLIB_DEBUG=1"]),
                G("clang-asan", ["-O1"], cxx="clang++"),
                G("clang-msan", ["-O1", "-fsanitize-ignorelist=" + os.path.join(c["v"], "lib", "msan_ignore.txt")], san="memory", cxx="clang++"),
                G("clang-msan-debug3", ["-O0", "-fsanitize-ignorelist=" + os.path.join(c["v"], "lib", "msan_ignore.txt")] + dbg, san="memory", cxx="clang++"),
                G("gcc-asan-threads", ["-O1", "-DSOUP_THREADS"])],
        runs=[run("gcc-asan", "gcc-asan", 100000, 1500000), run("gcc-asan-debug3", "gcc-asan-debug3", 4000, 60000, ["variant=1"]),
              run("gcc-asan-debug1", "gcc-asan-debug1", 20000, 100000, ["variant=2"]), run("clang-asan", "clang-asan", 100000, 1500000, ["variant=3"]),
              run("clang-msan", "clang-msan", 100000, 1500000, ["variant=4"]), run("clang-msan-debug3", "clang-msan-debug3", 4000, 60000, ["variant=5"]),
              run("gcc-asan-threads", "gcc-asan-threads", 1600, 20000, ["variant=6"])],
        rule="random histories over two buffers with writers, readers, trace readers, 18 formulas (all operators, nested), event operations, copies, destruction and re-creation, refused indices and debug output at levels 0, 1 and 3, run under gcc and clang ASan+UBSan and clang MSan, and real threads under ASan+UBSan; the oracle is the sanitizer and that out-of-range calls are refused. Distinct: different operation sequences and verdicts.",
        require=["refused", "debugs", "verdict_true", "verdict_false", "verdict_unknown", "trace_ops", "reader_ops"])

@check("C08")
def c08(c):
    return dict(
        builds=[build(c, "asan", ["seq_reader.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["seq_reader.cpp"], ["-O2"])],
        runs=[run("enum", "opt", 6 * 4**8, 6 * 4**11, ["enum=" + ("8" if c["tier"] == "quick" else "11")]),
              run("random", "asan", 40000, 800000), run("random-opt", "opt", 80000, 1500000, ["variant=1"])],
        rule="every sequence of length 8 (11) over push, synchronize, pull, pop (the gap query after each step), N=1..3, pushed directly or by a writer, and random histories with up to 4 readers created at any time; every result is compared with a (next, synchronised) model over the list of pushed events. Distinct: different sequences of operation, distance and loss.",
        require=["gaps", "nogaps", "sync_gaps", "pull_overflow", "pull_available", "pull_unavailable", "pop_available", "pop_overflow", "pop_unavailable"])

@check("C11")
def c11(c):
    return dict(
        builds=[build(c, "asan", ["seq_cursor.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["seq_cursor.cpp"], ["-O2"])],
        runs=[run("enum", "opt", 3 * 2 * 18, 3 * 2 * 30, ["enum=1"]),
              run("random", "asan", 40000, 800000), run("random-opt", "opt", 200000, 3000000, ["variant=1"])],
        rule="every window size at every ring offset (N=2,4,6), with and without unsynchronised pushes, from every cursor position to every time around the window; and random histories of cursor steps, reads, pulls, seeks, jumps, resynchronisation and consumption; after every operation current/next/previous/remaining/consumed are compared with a list model. Distinct: different sequences of operation, window and cursor.",
        require=["seek_back", "seek_forward", "seek_here", "seek_from_end", "seek_none", "refused_steps", "refused_cursor", "jumps", "consumed_events"])

@check("C10")
def c10(c):
    return dict(
        builds=[build(c, "asan", ["passive.cpp"], ["-O1"] + ASAN, link=ASAN_L),
                build(c, "opt", ["passive.cpp"], ["-O2"]),
                sched_build(c, "sched1", "c_writers.cpp"), sched_build(c, "sched0", "c_writers.cpp", "-O0")],
        runs=[run("random", "asan", 20000, 400000), run("random-opt", "opt", 80000, 1500000, ["variant=1"]),
              run("beside", "sched1", 250000, 4000000, ["readers=1"]), run("beside-o0", "sched0", 60000, 1000000, ["readers=1", "variant=1"])],
        rule="random histories of buffer/writer operations and up to 4 readers or trace readers (8 formulas); around every reader operation a digest of all slots and the state is compared, and the history is replayed with all readers left out and with only one of them, comparing every result. Under the controlled scheduler, 1 to 4 writers push beside 1 to 2 readers or trace readers at work; the content and the results of the pushes must be those of some order of the pushes, as without readers. Distinct: different result sequences and schedules.",
        assumptions=SC,
        require=["schedules", "reader_ops", "buffer_ops", "replayed_ops", "formula_evaluations"])

def formulas(c, pid, what, profile, per_file, files, cases, extra_rule, require):
    """generate formula files (8 quick, 32 thorough) and run every one of them over many traces"""
    import subprocess, sys
    n = files[0] if c["tier"] == "quick" else files[1]
    builds, runs = [], []
    for k in range(n):
        src = os.path.join(c["bdir"], f"g{k}.cpp")
        subprocess.run([sys.executable, os.path.join(c["v"], "gen", "formulas.py"), str(c["seed"] * 1000 + k), str(per_file), profile, src], check=True)
        asan = k % 8 == 7
        builds.append(build(c, f"g{k}", [src], ["-O1", "-fwrapv", "-DFRM_" + what, "-DFDATA=" + {4: "uint8_t", 5: "int64_t", 6: "unsigned"}.get(k % 8, "int")] + (ASAN if asan else []), link=ASAN_L if asan else []))
        runs.append(run(f"g{k}", f"g{k}", cases[0] // (3 if asan else 1), cases[1] // (3 if asan else 1), [f"mode={pid}", f"variant={k}"], max_shards=1 if c["tier"] == "quick" else 8))
    return dict(builds=builds, runs=runs, require=require, assumptions=["event times are positive and strictly increasing", "formulas are generated per seed"],
        rule=f"{n} generated files of {per_file} formulas each (every operator, random nesting and bounds incl. 0 and huge ones), random traces of 1 to 14 (now and then 300) events of four data types at random ring offsets, propositions and data of any bits, all evaluation points. " + extra_rule)

@check("C12")
def c12(c):
    return formulas(c, "C12", "COMPARE", "future", 40, (16, 64), (16000, 100000),
        "Every future operator node is compared with its definition over the library's own values of its operands. Distinct: different vectors of expected verdicts.",
        [f"{o}:{v}" for o in ("p", "U", "UB", "A", "E=", "A=", "Eu") for v in ("true", "false", "unknown") if (o, v) != ("Eu", "false")] + ["in_between_decides"])

@check("C13")
def c13(c):
    return formulas(c, "C13", "COMPARE", "past", 40, (16, 64), (16000, 100000),
        "Every past operator node is compared with its definition over the library's own values of its operands. Distinct: different vectors of expected verdicts.",
        [f"{o}:{v}" for o in ("S", "H", "P=", "H=") for v in ("true", "false", "unknown")])

@check("C14")
def c14(c):
    return formulas(c, "C14", "COMPARE", "dur", 40, (16, 64), (16000, 100000),
        "Every duration, sum, product and comparison is compared with its definition over the library's own values of its operands. Distinct: different vectors of expected durations.",
        [f"{o}:{v}" for o in ("D", "+", "*") for v in ("value", "unknown")] + [f"<:{v}" for v in ("true", "false", "unknown")])

@check("C15")
def c15(c):
    return formulas(c, "C15", "PREFIXES", "mixed", 40, (16, 64), (7000, 40000),
        "Every formula is evaluated at every event over every prefix of the trace. Distinct: different sets of (formula, event, definite verdict).",
        ["definite_rechecked", "became_definite", "still_unknown"])

@check("C16")
def c16(c):
    return formulas(c, "C16", "EFFECTS", "mixed", 40, (16, 64), (10000, 60000),
        "All formulas are evaluated at a point, then again in random order without repositioning; cursor, counts, window, evaluation time and all buffer slots are compared around every evaluation. Distinct: different verdict sequences.",
        ["evaluations_checked", "repeated"] + [f"{o}:{v}" for o in ("U", "S", "A", "H", "E=", "P=") for v in ("true", "false", "unknown")])

@check("C18")
def c18(c):
    return formulas(c, "C18", "PLACES", "mixed", 30, (16, 64), (6000, 40000),
        "Every formula at every event is evaluated at ring offset 0 in a buffer of 24 and compared with three other placements: random offset, buffer of 13 or 24, overwritten or consumed earlier events, later unsynchronised events, shifted times. Distinct: different verdict vectors.",
        ["placements_compared"])

@check("C17")
def c17(c):
    import subprocess, sys
    d = formulas(c, "C17", "COMPARE", "mixed", 40, (2, 8), (4000, 20000),
        "", ["assignments", "comparisons"])
    n = 6 if c["tier"] == "quick" else 24
    for k in range(n):
        src = os.path.join(c["bdir"], f"c{k}.cpp")
        subprocess.run([sys.executable, os.path.join(c["v"], "gen", "connectives.py"), str(c["seed"] * 1000 + k), "400", src], check=True)
        d["builds"].append(build(c, f"c{k}", [src], ["-O1", "-fwrapv"]))
        d["runs"].append(run(f"c{k}", f"c{k}", 4000, 4000, [f"variant={100 + k}"], max_shards=1))
    d["rule"] = f"{n} generated files of 400 random textual compositions of the operator macros (nested, with ternaries, comparisons, calls, conversions, names and durations as operands), each over all values of four three-valued and one four-valued operand and random durations, against truth tables; and boolean nodes inside evaluated formulas. Distinct: different (composition, result vector)."
    d["assumptions"] = []
    return d

@check("C19")
def c19(c):
    return dict(
        builds=[build(c, "asan", ["event_ops.cpp"], ["-O1"] + ASAN, link=ASAN_L), build(c, "clang", ["event_ops.cpp"], ["-O2"], cxx="clang++")],
        runs=[run("asan", "asan", 2000000, 20000000), run("clang", "clang", 4000000, 40000000, ["variant=1"])],
        rule="random and boundary pairs of events of eight data types (equal and extreme times, times differing only in the upper half, equal and different data): all operators, both operand orders, constructors, setters, copies, assignment from value, pointer and itself, default construction over junk memory. Distinct: different (type, times, data equality).",
        require=["same_time_same_data", "same_time_other_data", "earlier", "later"])

@check("C20")
def c20(c):
    return dict(
        builds=[build(c, "asan", ["time_ops.cpp"], ["-O1"] + ASAN, link=ASAN_L), build(c, "clang", ["time_ops.cpp"], ["-O2"], cxx="clang++")],
        runs=[run("asan", "asan", 2000000, 20000000), run("clang", "clang", 4000000, 40000000, ["variant=1"])],
        rule="random and boundary pairs of normalised timespecs (seconds 0 to 2^61, carries, borrows, equal parts, differences below zero), every aliasing of operands and result, against 128-bit integers; random microsecond periods; clock readings of an interposed clock. Distinct: different pairs.",
        require=["carries", "borrows", "negative", "set", "unset"])

def sched_build(c, name, src, opt="-O1", **kw):
    """instrumented with -fsanitize=thread, whose entry points are those of sched/vsched.cpp"""
    return build(c, name, [src, (os.path.join(c["v"], "sched", "vsched.cpp"), STD + ["-O2"] + inc(c)), (os.path.join(c["v"], "sched", "vpthread.cpp"), STD + ["-O2"] + inc(c))], [opt, "-fsanitize=thread"], **kw)

def native_build(c, name, src):
    """the same harness on real threads, which start each phase together; not instrumented"""
    return build(c, name, [src, (os.path.join(c["v"], "sched", "native.cpp"), STD + ["-O2"] + inc(c))], ["-O3", "-DVERIF_NATIVE"])

SC = ["interleavings are sequentially consistent, at the granularity of single loads, stores and atomic operations of the compiled code"]

@check("C05")
def c05(c):
    rv = sched_build(c, "riscv", "c_writers.cpp", optional=True)
    rv["flags"] += ["-include", H(c, "config.h"), "-I" + H(c, "stubs"), "-DCFG_RISCV"]
    return dict(
        builds=[sched_build(c, "o1", "c_writers.cpp"), sched_build(c, "o0", "c_writers.cpp", "-O0"), native_build(c, "native", "c_writers.cpp"), rv, build(c, "far", ["c_far.cpp"], ["-O3"])],
        runs=[run("random", "o1", 300000, 6000000), run("random-o0", "o0", 60000, 1000000, ["variant=1"]),
              run("systematic", "o1", 7 * 3 * 230, 7 * 3 * 400, ["systematic=1", "depth=" + ("2" if c["tier"] == "quick" else "3")]),
              run("long", "o1", 6000, 40000, ["long=1"]), run("starved", "o1", 40000, 600000, ["starve=1"]), run("native", "native", 6000, 200000, ["burst=60"], max_shards=2),
              run("riscv", "riscv", 60000, 1000000, ["variant=2"]),
              run("far", "far", 4000, 40000, ["bits=20"]), run("far24", "far", 15, 15, ["bits=24", "exact=1"])]
             + ([run("far32", "far", 0, 15, ["bits=32", "exact=1"])] if c["tier"] == "thorough" else []),
        rule="1 to 3 phases of 2 to 4 writers with 1 to 6 pushes each under random-walk and PCT schedules, with quiescent pulls, pops and writer re-creation in between (N from 1 to 64, all fill levels), and every schedule with at most two preemptions of seven small scenarios (three writers: one; thorough: two, and three sampled); one push suspended at each of its steps while another writer pushes up to 131072 times, and at its clock reading while the others push up to 2^24 times (thorough: 2^32); bursts of up to 60 pushes per writer on real threads, uninstrumented at -O3; schedules that starve one writer or let it go on a few steps at a time; the RISC-V flavour under random schedules. After every phase content, results and order are checked; an unfinished push under a fair schedule, and any access outside live objects, is a violation. Distinct: different schedules.",
        assumptions=SC, require=["overflows", "writers_recreated", "schedules", "systematic_schedules"])

@check("C06")
def c06(c):
    return dict(
        builds=[sched_build(c, "o1", "c_stamp.cpp"), build(c, "far", ["c_far.cpp"], ["-O3"])],
        runs=[run("random", "o1", 1200000, 12000000), run("systematic", "o1", 6 * 300, 6 * 400, ["systematic=1"]), run("far", "far", 2000, 20000, ["bits=20"])],
        rule="1 to 4 writers pushing with and without stamps under random-walk and PCT schedules with virtual clocks that stand still, tick coarsely, run, jump across seconds, and start anywhere up to 2^63 ns; and every schedule with at most two preemptions of two small scenarios; up to 2^20 pushes in a row. Distinct: different schedules.",
        assumptions=SC, require=["stamped", "kept", "ordered_pairs", "systematic_schedules"])

@check("C07")
def c07(c):
    return dict(
        builds=[sched_build(c, "o1", "c_observe.cpp"), sched_build(c, "o0", "c_observe.cpp", "-O0"), native_build(c, "native", "c_observe.cpp")],
        runs=[run("random", "o1", 900000, 9000000), run("random-o0", "o0", 60000, 1000000, ["variant=1"]),
              run("systematic", "o1", 24 * 260, 24 * 400, ["systematic=1"]),
              run("long", "o1", 924, 5000, ["long=1"]), run("starved", "o1", 50000, 800000, ["starve=1"]), run("native", "native", 6000, 200000, ["burst=60"], max_shards=2)],
        rule="1 to 3 writers and 1 to 2 observers calling state (both forms) and length under random-walk and PCT schedules, every schedule with at most two preemptions of 12 small scenarios, observations suspended at each step while a writer pushes up to 131072 times, schedules that starve one thread, and real threads without instrumentation; every observation must be the state after k pushes for one k consistent with the calls and returns of pushes and of earlier observations. Distinct: different (schedule, observation).",
        assumptions=SC, require=["observations_during_pushes", "systematic_schedules"])

@check("C09")
def c09(c):
    return dict(
        builds=[sched_build(c, "o1", "c_reader.cpp"), sched_build(c, "o0", "c_reader.cpp", "-O0"), native_build(c, "native", "c_reader.cpp")],
        runs=[run("random", "o1", 300000, 5000000), run("random-o0", "o0", 60000, 1000000, ["variant=1"]),
              run("systematic", "o1", 24 * 420, 24 * 800, ["systematic=1"]), run("starved", "o1", 50000, 800000, ["starve=1"]),
              run("native", "native", 6000, 200000, ["burst=60"], max_shards=2)],
        rule="1 to 3 writers with up to 14 pushes each and 1 to 2 readers doing synchronize, pull, gap and length (N from 1 to 24, any start position) under random-walk and PCT schedules, and every schedule with one and every second (sixth, with two writers) with two preemptions of 12 small scenarios, schedules that starve one thread, and on real threads without instrumentation. Delivered events are compared with the order in which the pushes took effect; every reported gap and every skip is checked against bounds of the reader's position; a final quiescent drain must be exact. Distinct: different schedules.",
        assumptions=SC + ["event times are positive and strictly increasing"], require=["delivered_during_push", "pull_overflow", "sync_gap", "gap", "nogap", "reported_skips", "drained", "systematic_schedules"])

@check("C25")
def c25(c):
    return dict(
        builds=[sched_build(c, "o1", "c_progress.cpp"), sched_build(c, "o0", "c_progress.cpp", "-O0")],
        runs=[run("random", "o1", 1500000, 12000000), run("random-o0", "o0", 100000, 1500000, ["variant=1"]),
              run("systematic", "o1", 3 * 180 * 160, 3 * 180 * 160, ["systematic=1"]), run("systematic-o0", "o0", 3 * 180 * 250, 3 * 180 * 250, ["systematic=1", "variant=1"])],
        rule="every operation of writers, observers, readers and trace readers suspended at each of its steps (N 1, 2, 4; empty, full and overwritten buffers), while another thread makes every call; and random scripts of 1 to 3 suspended and 1 to 3 running threads (N from 1 to 16). A running thread has to finish: read-side calls always, pushes unless a push is suspended; a call of a thread that runs alone takes at most 500 + 80 N steps (measured: below 200). Then all are resumed and have to finish. Distinct: different schedules.",
        assumptions=SC, require=["suspension_points", "pushes_past_suspended", "reads_past_suspended", "resumed"])

@check("C26")
def c26(c):
    import subprocess, sys
    n = 2 if c["tier"] == "quick" else 8
    builds, runs = [], []
    for k in range(n):
        src = os.path.join(c["bdir"], f"a{k}.cpp")
        subprocess.run([sys.executable, os.path.join(c["v"], "gen", "formulas.py"), str(c["seed"] * 1000 + 800 + k), "30", "mixed-small", src], check=True)
        b = sched_build(c, f"sched{k}", src); b["flags"] += ["-DFRM_APART"]
        t = build(c, f"threads{k}", [src], ["-O1", "-g1", "-fsanitize=thread", "-DFRM_APART", "-DAPART_THREADS"], cxx="clang++", link=["-fsanitize=thread"])
        builds += [b, t]
        runs += [run(f"sched{k}", f"sched{k}", 40000, 400000, [f"variant={k}"]), run(f"threads{k}", f"threads{k}", 1500, 20000, [f"variant={k}"], max_shards=3)]
    return dict(builds=builds, runs=runs,
        rule=f"2 to 6 threads with histories of buffer, writer, reader, trace-reader, event and timespec operations and evaluations of {n} x 30 generated formulas, each thread on objects of its own (also the same history in all of them); every result against that of the history alone; interleaved by the deterministic scheduler at every access to the objects and to static variables, and in real threads under ThreadSanitizer. Distinct: different schedules.",
        assumptions=SC + ["debug output is off"], require=["interleaved_histories", "true", "false", "unknown", "durations"])

VT = ["time is virtual: it passes only while every thread waits; a wait ends at its time or up to 0.3 ms later", "activation takes at most 10 ms after enabling"]

def debug3(b):      # with all the debug output
    b["flags"] += ["-DRTMLIB_DEBUG=3"]
    return b

@check("C21")
def c21(c):
    return dict(
        builds=[sched_build(c, "o1", "c_tasks.cpp"), sched_build(c, "o0", "c_tasks.cpp", "-O0"), debug3(sched_build(c, "debug3", "c_tasks.cpp"))],
        runs=[run("random", "o1", 1600000, 14000000, ["mode=C21"]), run("random-o0", "o0", 200000, 3000000, ["mode=C21", "variant=1"]), run("random-debug3", "debug3", 20000, 200000, ["mode=C21", "variant=2"])],
        rule="one or two tasks or monitors with periods from 0 to 2^32-1 us, changed by their controller or their job, job durations of zero, around and above the period, wake-ups up to 0.3 ms late, spurious wake-ups, clocks at any second boundary. Every job start is compared with the interval of release times (activation plus periods in force). Distinct: different (schedule, release times).",
        assumptions=SC + VT, require=["releases", "overrun_releases", "late_wakeup_cases", "tasks", "monitors", "due_together"])

@check("C22")
def c22(c):
    return dict(
        builds=[sched_build(c, "o1", "c_tasks.cpp"), sched_build(c, "o0", "c_tasks.cpp", "-O0"), debug3(sched_build(c, "debug3", "c_tasks.cpp"))],
        runs=[run("random-debug3", "debug3", 20000, 200000, ["mode=C22", "variant=2"]), run("random", "o1", 2000000, 16000000, ["mode=C22"]), run("random-o0", "o0", 200000, 3000000, ["mode=C22", "variant=1"]),
              run("systematic", "o1", 32 * 320, 32 * 320, ["mode=C22", "systematic=1"]), run("systematic-o0", "o0", 32 * 320, 32 * 320, ["mode=C22", "systematic=1", "variant=1"])],
        rule="one or two tasks or monitors in memory filled with zeros, ones, status values or junk, controlled by random scripts of enable, disable, isRunning and period changes, from one or two threads and from their own job, under random-walk and PCT schedules with late and spurious wake-ups; and every schedule with at most two preemptions of 16 small scenarios. Job starts, isRunning, thread end and join are checked against the control operations. Distinct: different (schedule, job starts).",
        assumptions=SC + VT, require=["terminated", "disabled_before_first_job", "never_enabled", "job_in_progress_at_disable", "is_running", "is_not_running", "second_controllers", "systematic_schedules"])

@check("C23")
def c23(c):
    import subprocess, sys
    q = c["tier"] == "quick"
    n, per = (6, 30) if q else (24, 40)
    builds, runs = [], []
    for k in range(n):
        src = os.path.join(c["bdir"], f"m{k}.cpp")
        subprocess.run([sys.executable, os.path.join(c["v"], "gen", "formulas.py"), str(c["seed"] * 1000 + 500 + k), str(per), "mixed", src], check=True)
        b = sched_build(c, f"m{k}", src, "-O0" if k % 4 == 3 else "-O1")
        b["flags"] += ["-fwrapv", "-DFRM_MONITOR"]
        builds.append(b)
        runs.append(run(f"random{k}", f"m{k}", 30000, 300000, [f"variant={k}"]))
        if k == 0 or not q and k < 4: runs.append(run(f"systematic{k}", f"m{k}", per * 2 * 300, per * 2 * 400, ["systematic=1", f"variant={k}"]))
    return dict(builds=builds, runs=runs,
        rule=f"{n} generated files of {per} formulas (all operators); monitors (a loop, or a real RTML_monitor in virtual time) that synchronise, set and evaluate while 1 to 3 writers push, N from 3 to 38, under random-walk and PCT schedules; and schedules with one and a sample of those with two preemptions of a small scenario per formula. Every verdict must be that of the first m recorded events, m between the pushes returned when synchronize starts and those in force when it ends; every definite verdict that of the complete history; and a last evaluation at rest that of the complete history. Evaluations whose window lost an event before their end are left out. Distinct: different schedules with their definite verdicts.",
        assumptions=SC + ["event times are positive and strictly increasing", "formulas are generated per seed"],
        require=["evaluated_during_push", "verdict_changed", "window_matters", "definite", "periodic_monitors", "systematic_schedules"])

@check("C24")
def c24(c):
    import subprocess, sys
    q = c["tier"] == "quick"
    n = 2 if q else 8
    D3 = ["-DRTMLIB_DEBUG=3", "-DRTMLIB_ENABLE_DEBUGV_RMTLD3", "-DRTMLIB_ENABLE_DEBUG_RMTLD3"]
    cfg = [("o0", "g++", ["-O0"]), ("o2", "g++", ["-O2"]), ("o3", "g++", ["-O3"]), ("os17", "g++", ["-Os", "-std=c++17"]), ("clang0", "clang++", ["-O0"]), ("clang2", "clang++", ["-O2", "-std=c++14"]),
           ("debug1", "g++", ["-O1", "-DRTMLIB_DEBUG=1"]), ("debug3", "g++", ["-O1"] + D3), ("hw", "g++", ["-O1", "-DCFG_HW"]), ("hw-clang", "clang++", ["-O2", "-DCFG_HW"]),
           ("riscv", "g++", ["-O1", "-DCFG_RISCV"]), ("riscv-debug", "clang++", ["-O2", "-DCFG_RISCV"] + D3), ("arm", "g++", ["-O1", "-no-pie", "-fno-pie", "-fpermissive", "-DCFG_ARM"])]
    builds, runs = [], []
    for k in range(n):
        src = os.path.join(c["bdir"], f"f{k}.cpp")
        subprocess.run([sys.executable, os.path.join(c["v"], "gen", "formulas.py"), str(c["seed"] * 1000 + 700 + k), "30", "mixed-small", src], check=True)
        for name, cxx, fl in cfg:
            b = build(c, f"{name}-{k}", [src], ["-include", H(c, "config.h"), "-I" + os.path.join(c["v"], "harness", "stubs"), "-DFRM_CONFIG"] + fl, cxx=cxx, link=["-no-pie"] if name == "arm" else [])
            b["optional"] = name != "o0"      # that a configuration compiles is for a compiler to settle
            builds.append(b)
            cases = 1 if "debug" not in name else 0.15
            runs.append(run(f"{name}-{k}", f"{name}-{k}", int(100000 * cases), int(1000000 * cases), [f"variant={k}"], max_shards=3))
    def post(digests, cov, rerun):
        v = []
        def first_difference(k, name, case):
            a, b = [(rerun(f"{x}-{k}", int(case)).get("samples") or [""])[-1].split(";") for x in ("o0", name)]
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y: return f"after {i} operations; the previous one: {a[i-1][:300] if i else '-'} | o0: {x[:400]} | {name}: {y[:400]}"
            return "in the number of operations"
        for k in range(n):
            base = dict(digests.get(f"o0-{k}", []))
            for name, _, _ in cfg:
                for case, d in digests.get(f"{name}-{k}", []):
                    if name == "o0" or case not in base: continue
                    cov["compared"] = cov.get("compared", 0) + 1
                    cov["compared_" + name] = cov.get("compared_" + name, 0) + 1
                    if d != base[case]:
                        v.append((f"{name}-{k}", f"differs:{name}", int(case), f"history {case} gives other results in configuration {name} than in o0 {first_difference(k, name, case)}"))
                        break
        return v
    return dict(builds=builds, runs=runs, post=post,
        rule=f"random histories of buffer, writer, reader, trace-reader, event and timespec operations and evaluations of {n} x 30 generated formulas, each history run in " + ", ".join(x[0] for x in cfg) + " (hw: hardware synthesis; riscv, arm: these flavours compiled for this machine); one digest of all results per history, compared with that of o0. Distinct: different digests.",
        assumptions=["times up to 2^62, below 2^32 - 10^9 where timestamps have 32 bits (ARM), such that times plus bounds fit", "the RISC-V and ARM flavours run on x86-64, with stand-ins for target headers; their compilers and memory models are not covered", "assignment of buffers is not available in hardware synthesis, and push_all may warn of several writers there"],
        require=["compared_" + x[0] for x in cfg if x[0] not in ("o0", "arm")] + ["true", "false", "unknown", "durations", "buffer_pulls", "reader_ops", "assignments"])
