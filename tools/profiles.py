"""Which simulated world decides which property, and how much of it a quick run explores."""
GROUPS = ["prim", "impl", "auto", "ext1", "ext2", "rec", "param"]

WORLDS = {
    "wire": dict(groups=GROUPS),
    "log": dict(main_instrumented=True),
    "life": dict(groups=GROUPS, instrumented=["lifelib"]),
    "vari": dict(main_instrumented=True),
    "clock": dict(main_instrumented=True, link=["-Wl,--wrap=_ZN4absl7debian319GetCurrentTimeNanosEv,--wrap=_ZN4absl7debian33NowEv"]),
    "conc": dict(groups=["prim", "impl", "rec"], instrumented=["conclib"], instr=["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
                 link=["-Wl," + ",".join("--wrap=" + s for s in (
                     "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock "
                     "pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield nanosleep _ZN4absl7debian35Mutex4LockEv "
                     "_ZN4absl7debian35Mutex7TryLockEv _ZN4absl7debian35Mutex6UnlockEv memcpy memmove memset memcmp strlen snprintf vsnprintf gmtime localtime asctime ctime setlocale "
                     "__asan_memcpy __asan_memmove __asan_memset").split()), "-static-libstdc++"]),
}



def build_comp(b):
    """the compiler with its main renamed, in one process with the simulator"""
    import check, emit, os, shutil
    ag = b.autogen()
    flags = ["-std=c++11", "-O1", "-g1", "-fno-omit-frame-pointer"] + check.SAN
    inc = ["-I" + check.REPO + "/include", "-I" + check.REPO + "/src/compiler/include", "-I" + ag]
    futs = b.compiler_objs(flags, "clang++")
    futs.append(b.pool.submit(check.compile_obj, "clang++", flags + ["-w", "-Dmain=sim_compiler_main"] + inc, check.REPO + "/src/compiler_main/CompilerMain.cpp",
                              (check.REPO + "/src", check.REPO + "/include"), "the schema compiler"))

    def schemas(out):
        for g in GROUPS:
            emit.emit(os.path.dirname(out), g)
        open(out, "w").close()
    d = os.path.dirname(check.cached("schemas", check.key("schemas", check.tree_hash(check.VERIF + "/tools")), schemas))
    simdeps = (check.VERIF + "/sim",)
    for s in ("core", "val", "sys"):
        futs.append(b.pool.submit(check.compile_obj, "clang++", check.PLAIN, check.VERIF + "/sim/%s.cpp" % s, simdeps))
    futs.append(b.pool.submit(check.compile_obj, "clang++", check.PLAIN + ['-DREPO_DIR="%s"' % check.REPO, '-DSCHEMA_DIR="%s"' % d], check.VERIF + "/sim/comp.cpp", simdeps))
    objs = [f.result() for f in futs]

    def make(out):
        r = check.sh(["clang++", "-no-pie"] + check.SAN + ["-o", out] + objs + check.ABSL + ["-lpthread", "-ldl"])
        if r.returncode:
            raise check.Broken("the simulator does not link: " + r.stderr.decode(errors="replace")[:3000])
    return check.cached("sim_comp", check.key("world", objs), make)


WORLDS["comp"] = dict(build=build_comp)


def build_show(b):
    """the viewer with its main renamed, in one process with the simulator"""
    import check
    simdeps = (check.VERIF + "/sim",)
    lib = (check.REPO + "/include", check.REPO + "/src/ber_types", check.REPO + "/src/util", check.REPO + "/src/view")
    futs = [b.pool.submit(check.compile_obj, "clang++", check.INSTR, check.REPO + s, lib, "the library") for s in ("/src/ber_types/Real.cpp", "/src/util/BerView.cpp")]
    futs.append(b.pool.submit(check.compile_obj, "clang++", check.INSTR + ["-Dmain=sim_view_main"], check.REPO + "/src/view/view.cpp", lib, "the viewer"))
    for s in ("core", "val", "sys", "show"):
        futs.append(b.pool.submit(check.compile_obj, "clang++", check.PLAIN, check.VERIF + "/sim/%s.cpp" % s, simdeps))
    objs = [f.result() for f in futs]

    def make(out):
        r = check.sh(["clang++", "-no-pie"] + check.SAN + ["-o", out] + objs + check.ABSL + ["-lpthread", "-ldl"])
        if r.returncode:
            raise check.Broken("the simulator does not link: " + r.stderr.decode(errors="replace")[:3000])
    return check.cached("sim_show", check.key("world", objs), make)


WORLDS["show"] = dict(build=build_show)

WIRE_REAL = ["the schema compiler (src/compiler, src/compiler_main), run on seven groups of schemas",
             "the generated types with their encoders and decoders", "include/fast_ber (all of ber_types and util)",
             "src/ber_types/Real.cpp, src/util/BerView.cpp"]
WIRE_STUBS = ["network: stream and datagram links with fragmentation, coalescing, delay, duplication, loss, corruption and connection cuts",
              "clock: discrete events in simulated time", "foreign peers: an independent reference BER encoder and decoder",
              "memory: buffers of exactly the needed size under AddressSanitizer, counting operator new"]
WIRE_RULE = ("A run is one plan derived from a seed: links, messages of types drawn from the vetted schemas with generated values, "
             "and faults. It counts as non-trivial when at least one fault or alternative encoding took effect, and as distinct by the hash of its event log.")
WIRE_ASSUME = ["the vetted schemas in tools/schemas.py stand for all schemas; the types, values, faults and schedules are sampled, not enumerated",
               "the reference codec in sim/val.cpp implements X.690 correctly"]
STATE = "hash of (type, direction or phase, outcome, fault effect or length class)"


def wire(batches, must, **kw):
    return dict(world="wire", batches=batches, rule=WIRE_RULE, real=WIRE_REAL, stubs=WIRE_STUBS, assumptions=WIRE_ASSUME,
                state_measure=STATE, must_fire=must, **kw)


PROPS = {
    "C01": wire([("C01", 1200, 40)], ["fault_capacity_too_small", "fault_buffer_full"]),
    "C02": wire([("C02", 5000, 40)], ["fault_fragmented", "fault_delay", "fault_duplicate", "relayed"]),
    "C03": wire([("C03", 4000, 40)], ["fault_torn_message", "fault_connection_cut", "prefix_decode"]),
    "C04": wire([("C04", 6000, 40)], ["alt_long_length", "alt_padded_length", "alt_set_order", "alt_explicit_default", "alt_true", "alt_padded_integer", "alt_real"]),
    "C05": wire([("C05", 9000, 40)], ["fault_flip", "fault_hdr", "fault_trunc", "corrupted_accepted_with_its_value"]),
    "C06": wire([("C06", 5000, 40)], ["decode_into_used", "fault_connection_cut"]),
    "C07": wire([("C07", 7000, 40)], ["skew_must_reject", "skew_must_accept", "alt_unknown_element"]),
    "C08": dict(world="log", batches=[("C08", 4000, 40)],
                rule="A run is one plan: packets appended to a log, syncs, crashes, readers, and operations on stored packets. Non-trivial when a fault or an alternative length or tag form took effect; distinct by the hash of its event log.",
                real=["include/fast_ber/util: BerView, BerContainer, Extract, EncodeIdentifiers, EncodeHelpers"],
                stubs=["storage: a log whose unsynced sectors are lost, zeroed or cut off by crashes", "readers which see the log cut at any octet"],
                assumptions=["packets of up to 65537 octets and six levels stand for all; sampled, not enumerated", "the reference parser in sim/val.cpp implements X.690 correctly"],
                must_fire=["fault_crash", "fault_lost_sector", "fault_torn_packet", "alt_length_form", "synced_packets_checked", "resized"],
                state_measure="hash of (header length, class, construction, content length) of the packets written"),
    "C09": dict(world="life", batches=[("C09", 4000, 40)],
                rule="A run is one plan: up to 8 objects of one to five types, and up to 60 operations on them. Non-trivial when octets were damaged or an alternative form was received; distinct by the hash of its event log and of every encoding after every step.",
                real=["include/fast_ber (ber_types and util)", "the generated types of seven groups of schemas", "src/ber_types/Real.cpp, src/util/BerView.cpp"],
                stubs=["memory: counting operator new, AddressSanitizer", "foreign peers: an independent reference BER encoder and decoder"],
                assumptions=["types, values and operations are sampled, not enumerated", "the reference codec in sim/val.cpp implements X.690 correctly"],
                must_fire=["fault_torn", "fault_corrupted", "alt_form", "converted", "self_assignment", "op_resize", "op_assign own part"],
                state_measure="hash of (type, operation, origin of the value, encoded length)"),
    "C10": dict(world="vari", batches=[("C10", 20000, 30)],
                rule="A run is one plan: a pool of objects of one kind and up to 60 operations on them, some with a throwing constructor, copy, move or assignment of a contained object, or a failing allocation, at a chosen point. Non-trivial when a fault took effect; distinct by the hash of its event log and of every object's content after every step.",
                real=["include/fast_ber/util/DynamicVariant.hpp, DynamicVariantHelpers.hpp, DynamicOptional.hpp", "include/fast_ber/ber_types/Choice.hpp, Optional.hpp"],
                stubs=["contained objects which keep account of their lives and throw on request", "memory: operator new which fails on request, AddressSanitizer"],
                assumptions=["histories, kinds and fault points are sampled, not enumerated", "static choices are absl::variant inside; only fast_ber's layer over it is exercised"],
                must_fire=["fault_contents_threw", "fault_alloc_threw", "own_part", "self_assignment", "compared_valueless", "unchanged_after_exception"],
                state_measure="hash of (kind, operation, alternative before and after, fault)"),
    "C11": dict(world="life", batches=[("C11", 700, 45), ("C11", 1500, 15, "log")],
                rule="A run is one plan: up to 8 objects of one to five types, and up to 60 operations on them, half of them with one or more failing allocations. Non-trivial when an allocation failed; distinct by the hash of its event log and of every encoding after every step.",
                real=["include/fast_ber (ber_types and util)", "the generated types of seven groups of schemas", "src/ber_types/Real.cpp, src/util/BerView.cpp"],
                stubs=["memory: operator new which fails on request, counts and keeps account; AddressSanitizer"],
                assumptions=["types, values, operations and failing allocations are sampled, not enumerated", "an operation which ends the process (std::terminate, as an allocation failed within a function declared not to throw) is tried out in a forked copy, and then performed without the fault"],
                must_fire=["fault_alloc_threw", "fault_alloc_terminates"],
                state_measure="hash of (type, operation, origin of the value, encoded length)"),
    "C12": dict(world="conc", batches=[("C12", 3000, 45)],
                rule="A run is one plan: two to five threads with one to four operations each on objects of their own, shared constant objects and shared octets, and the points at which a thread is preempted. Non-trivial when a thread was preempted; distinct by the hash of all preemptions and results.",
                real=["include/fast_ber (ber_types and util)", "the generated types of three groups of schemas", "src/ber_types/Real.cpp, src/util/BerView.cpp", "POSIX threads, of which one runs at a time"],
                stubs=["thread scheduling: decided before every basic block of library code and every access of it to memory other than its stack", "mutexes, once-initialisation and the initialisation of local statics: a waiting thread is parked by the simulator"],
                assumptions=["schedules are sequentially consistent; effects of weaker memory ordering are not simulated", "preemption within the C++ runtime, absl's compiled parts and the C library is not simulated"],
                must_fire=["fault_preempted", "fault_stalled"],
                state_measure="hash of (place in the code at which a thread is preempted, thread, next thread)"),
    "C13": dict(world="clock", batches=[("C13", 6000, 30)],
                rule="A run is one plan: four hosts with clocks and time zones of their own, which change at any time, and up to 60 operations on times: set, sent, received, read, compared, printed, and written by foreign peers. Non-trivial when a clock or time zone changed or a foreign text was received; distinct by the hash of its event log.",
                real=["include/fast_ber/ber_types/GeneralizedTime.hpp and its aliases, FixedIdBerContainer", "absl's time library, with the system's time zone database"],
                stubs=["clock: clock_gettime, time and gettimeofday report the clock of the simulated host", "time zone: TZ of the simulated host, among them invalid, POSIX style and absent ones", "foreign peers: an independent writer and reader of times"],
                assumptions=["instants, zones and histories are sampled, not enumerated"],
                must_fire=["fault_zone_changed", "fault_clock_jump", "fault_damaged_text", "alt_foreign_text", "skew_zones_differ", "clock_reads"],
                state_measure="hash of (month of the instant, form, time zone, operation)"),
    "C14": dict(world="comp", batches=[("C14", 4000, 40)],
                rule="A run is one plan: one set of input files and up to ten runs of the compiler on it, each with its own faults. Non-trivial when a fault took effect; distinct by the hash of its event log.",
                real=["src/compiler, src/compiler_main with the generated parser, executed in copies of the simulator's process", "the C++ runtime's file streams"],
                stubs=["system calls on inputs and outputs: each may fail, be cut short, interrupted, or be the last one", "disk: a limited number of octets", "clock, process number, randomness, environment, working directory, memory layout"],
                assumptions=["input sets, fault points and kinds are sampled, not enumerated", "calls on files outside the scratch directory are not faulted; the compiler makes none but those of the C++ runtime"],
                must_fire=["fault_call_failed", "fault_short_transfer", "fault_interrupted", "fault_disk_full", "fault_bad_input", "fault_bad_output", "failure_reported", "same_output"],
                state_measure="hash of (inputs, failing call and error, outcome)"),
    "C15": dict(world="comp", batches=[("C15", 4000, 40)],
                rule="A run is one plan: one set of input files and up to eight runs of the compiler on it, some of which are killed or paused while another compiler runs, from several places, over several earlier contents of the outputs. Non-trivial when a run was disturbed; distinct by the hash of its event log.",
                real=["src/compiler, src/compiler_main with the generated parser, executed in copies of the simulator's process", "the C++ runtime's file streams"],
                stubs=["memory: allocations placed at addresses in an order which derives from the seed, filled with other contents", "clock, process number, randomness, environment, working directory, location of files", "system calls on inputs and outputs: cut short, interrupted, or the last one before the process is killed", "a second compiler which runs while the first is stopped at a system call"],
                assumptions=["input sets, layouts and kill points are sampled, not enumerated", "addresses of code, globals and stack are those of the process, and vary only from process to process"],
                must_fire=["fault_short_transfer", "fault_interrupted", "fault_killed", "paused", "alt_earlier_outputs", "same_output"],
                state_measure="hash of (inputs, failing call and error, outcome)"),
    "C16": dict(world="show", batches=[("C16", 6000, 40)],
                rule="A run is one plan: files which are built, torn and damaged, and up to 14 runs of the viewer on them, each with its own faults. Non-trivial when a fault took effect; distinct by the hash of its event log.",
                real=["src/view/view.cpp, executed in copies of the simulator's process", "src/util/BerView.cpp, src/ber_types/Real.cpp, include/fast_ber", "the C++ runtime's streams"],
                stubs=["system calls on the file and standard output: each may fail, be cut short or interrupted", "standard output: a limited number of octets", "memory: allocations placed at other addresses", "foreign writers: an independent encoder of packets"],
                assumptions=["files and faults are sampled, not enumerated", "the time zone is UTC; what local zones do to times is part of C13", "the reference parser in sim/val.cpp implements X.690 correctly"],
                must_fire=["fault_call_failed", "fault_short_transfer", "fault_interrupted", "fault_disk_full", "fault_bad_input", "fault_torn", "fault_flip", "deeply_nested", "failure_reported", "printed"],
                state_measure="hash of (file size, completeness, failing call and error, output size)"),
}
