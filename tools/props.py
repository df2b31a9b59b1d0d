"""What each property's check builds and runs."""
FAULTS = ["preempt", "pick", "weak_cas_fail", "spurious_cv_wakeup", "notify_order", "time_jump", "stale_load", "stall", "block_reuse", "executor_refused",
          "callback_threw", "dropped_by_owner", "executor_stopped", "timed_wait_expired", "user0", "user1", "functor_copy_threw", "allocation_failed"]

REAL = {"name": "real", "flags": ["CORO"]}


def sim(prop, sources, variant=REAL, wl=None, **kw):
    return dict(variant=variant, sources=["wl/" + s for s in sources], wl=wl or (prop.lower() + "/"), **kw)


CHAIN = ["chain.cpp", "chain_sync.cpp", "chain_fut.cpp", "chain_shared.cpp", "chain_task.cpp"]

ALL = ["c01.cpp", "c05_jobs.cpp", "c06.cpp", "c07.cpp", "c08.cpp", "c09.cpp", "c09_join.cpp", "c09_pack.cpp", "c09_timing.cpp", "c10.cpp", "c10_shared.cpp", "c10_pack.cpp", "c10_timing.cpp",
       "c11.cpp", "c11_shared.cpp", "c12.cpp", "c13.cpp", "c13_f.cpp", "c13_t.cpp", "c13_s.cpp", "c13_c.cpp", "c14_00.cpp", "c14_01.cpp", "c14_10.cpp", "c14_11.cpp", "c15_00.cpp", "c15_01.cpp", "c15_10.cpp", "c15_11.cpp",
       "c16.cpp", "c02.cpp", "c03.cpp", "c03_f.cpp", "c03_fo.cpp", "c03_alloc.cpp"] + CHAIN

# the library's own fault backends: nothing is replaced, the random draws of the backend are the simulator's
FIBER = {"name": "fiber", "flags": ["CORO"], "fault": "FIBER", "sim": False, "cxxflags": ["-O2", "-D_GLIBCXX_ASSERTIONS"]}
THREAD = {"name": "thread", "flags": ["CORO"], "fault": "THREAD", "sim": False, "cxxflags": ["-O2", "-D_GLIBCXX_ASSERTIONS"]}
WRAP = ["-Wl,--wrap=_ZN6yaclib6detail13GetRandNumberEm", "-Wl,--wrap=_ZN6yaclib6detail20ShouldFailAtomicWeakEv"]
WRAP_FIBER = WRAP + ["-Wl,--wrap=_ZN6yaclib6detail5fiber9FiberBase6ResumeEv"]
FIB_FAULTS = ["forced_yield_draw", "other_fiber_picked", "weak_cas_fail", "sleep_jitter", "other_draw"] + ["-"] * 9 + ["injected_sleep", "user1", "user2", "user3"]


def fib(prop, sources, variant=FIBER, **kw):
    return dict(variant=variant, sources=["wl/" + s for s in sources], wl=prop.lower() + "/", runtime=["simrt/rt_fib.cpp", "simrt/driver.cpp"], kit=[], plain=["wl/fib_kit.cpp"],
                ldflags=WRAP_FIBER if variant is FIBER else WRAP, **kw)


FIB_SPEC = dict(faults=FIB_FAULTS,
                real="the whole FIBER / THREAD fault backend of YACLib and everything above it, compiled from /repo",
                stub="only the backend's random draws (which fiber next, yield now, spurious CAS failure, sleep jitter) come from the simulator's recorded stream; the THREAD backend's injected sleeps take no time")

PROPS = {
    "C01": dict(binaries=[sim("C01", ["c01.cpp"])]),
    "C02": dict(binaries=[sim("C02", ["c02.cpp"] + CHAIN)]),
    "C03": dict(binaries=[sim("C03", ["c03.cpp", "c03_f.cpp", "c03_fo.cpp", "c03_alloc.cpp"] + CHAIN)]),
    "C04": dict(binaries=[sim("C04", ALL, wl="all")], counts={"classes": ["race", "uaf", "free"], "keys": ["lost-write", "torn-value", "torn", "dead-value", "functor-dead", "executor-dead"]}),
    "C05": dict(binaries=[sim("C05", ["c05.cpp", "c05_jobs.cpp"] + CHAIN)]),
    "C06": dict(binaries=[sim("C06", ["c06.cpp"])]),
    "C07": dict(binaries=[sim("C07", ["c07.cpp"])]),
    "C08": dict(binaries=[sim("C08", ["c08.cpp"])]),
    "C09": dict(binaries=[sim("C09", ["c09.cpp", "c09_join.cpp", "c09_pack.cpp", "c09_timing.cpp"])]),
    "C10": dict(binaries=[sim("C10", ["c10.cpp", "c10_shared.cpp", "c10_pack.cpp", "c10_timing.cpp"])]),
    "C11": dict(binaries=[sim("C11", ["c11.cpp", "c11_shared.cpp"])]),
    "C12": dict(binaries=[sim("C12", ["c12.cpp"] + CHAIN)]),
    "C13": dict(binaries=[sim("C13", ["c13.cpp", "c13_f.cpp", "c13_t.cpp", "c13_s.cpp", "c13_c.cpp"])]),
    "C14": dict(binaries=[sim("C14", ["c14_00.cpp", "c14_01.cpp", "c14_10.cpp", "c14_11.cpp"])]),
    "C15": dict(binaries=[sim("C15", ["c15_00.cpp", "c15_01.cpp", "c15_10.cpp", "c15_11.cpp"])]),
    "C16": dict(binaries=[sim("C16", ["c16.cpp"])]),
    "C17": dict(binaries=[dict(fib("C17", ["c17.cpp", "c17_base.cpp", "c17_lib.cpp", "c17_env.cpp"]), ldflags=WRAP_FIBER + ["-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"], probe_wl="c17/again,c17/restore,c17/reuse", probe=600)],
                reproducibility=True,
                rule="one evaluation = one generated program executed twice (or continued from a recorded point) with different surroundings, every draw, switch, injected yield, spurious failure and client event compared; non-trivial = at least two fibers took turns or more than 30 events were compared; distinct = different hash of the event log",
                faults=["-", "-", "weak_cas_fail"] + ["-"] * 11 + ["user0", "user1", "user2", "user3"],
                real="the whole FIBER fault backend with its own random engine and everything above it, compiled from /repo",
                stub="heap placement, clocks, rand and std::random_device give other answers in every repetition and process (from a stream of their own)"),
    "C18": dict(binaries=[fib("C18", ["c18_model.cpp", "c18_lock.cpp", "c18_cv.cpp", "c18_thread.cpp"])],
                rule="one evaluation = one generated program under a seeded schedule of the library's own fiber scheduler; non-trivial = at least two fibers and at least one deviation from the quiet choices; distinct = different hash of the event log (switches, draws, operations)", **FIB_SPEC),
    "C19": dict(binaries=[fib("C19", ["c19.cpp", "c19_int.cpp", "c19_other.cpp"]), fib("C19", ["c19.cpp", "c19_int.cpp", "c19_other.cpp"], THREAD)],
                rule="one evaluation = one generated program of up to three operation sequences under a seeded schedule with injected yields and spurious failures; non-trivial = more than two operations compared; distinct = different hash of the event log (operations' results, draws, switches)", **FIB_SPEC),
    "C20": dict(binaries=[sim("C20", ["c20.cpp", "c20_f.cpp", "c20_fo.cpp", "c20_e.cpp", "c20_t.cpp"])]),
}

COMMON = ("Samples schedules and faults; a quiet run is evidence for the explored executions only. Trusted: the simulator (scheduler, memory model, pthread/futex model), "
          "gcc's access instrumentation, the workload's oracle. ")
NOTES = {
    "C01": COMMON + "Oracle: ledger of what was set and what each consumer observed, happens-before race detector, heap checker.",
    "C02": COMMON + "Oracle: a sequential interpreter of the generated pipeline.",
    "C06": COMMON + "Oracle: every observer sees the one value once and only after fulfilment began; happens-before race detector, heap checker.",
}
NOTES["C03"] = COMMON + "Oracle: tracked values, captures, errors and executors are destroyed exactly once and all gone in bounded virtual time after the owners let go; heap checker (leak, double free, use after free/return), race detector, every submitted job ends."
NOTES["C04"] = COMMON + "Oracle: happens-before race detector over every memory access of the library and of the clients' payloads, honouring the memory orders used, with stale reads the memory model allows; accesses to released memory; plain writes made before fulfilment are read back by every kind of observer. Runs the workloads of all other properties; only these violation classes count."
NOTES["C20"] = COMMON + "Oracle: blocks taken from the (interposed) heap by all threads, against one per step and per inner operation; combinators against a constant; zero for waiting, Get, strand submission, co_await."
NOTES["C07"] = COMMON + "Oracle: overlap counter, unsynchronised data owned by the strand under a race detector, real-time submission order, called/dropped ledger, no blocking operation inside a strand call."
NOTES["C08"] = COMMON + "Oracle: ledger of every job and stop call judged against accept/reject rules, order on one worker, nothing runs after Wait, visibility after Wait."
NOTES["C09"] = COMMON + "Oracle: completion interval of every input; element order, allowed first failure, not early, not late, everything released."
NOTES["C10"] = COMMON + "Oracle: completion interval of every input; allowed winners per policy, not early, not late, everything released."
NOTES["C05"] = COMMON + "Oracle: a sequential interpreter of the generated pipeline predicts where every step runs, how often every executor is used and what a refused step and its successors see; job ledger; happens-before race detector and heap checker."
NOTES["C11"] = COMMON + "Oracle: wait returns only after fulfilment (happens-before), timed wait results judged against fulfilment interval and virtual deadline, the future stays usable, the waiter's dead stack frame is never touched."
NOTES["C16"] = COMMON + "Oracle: interval of every Set/Done against every waiter's release; released exactly once, never before, everybody released, the resumed waiter runs in its executor, storage may be destroyed right after."
NOTES["C12"] = COMMON + "Oracle: a lazily built pipeline has run nothing, used no executor and allocated no callback before it is started; afterwards the sequential interpreter of the pipeline; a never started or cancelled one ends as cancelled with every step released."
NOTES["C13"] = COMMON + "Oracle: every await is checked on resumption (each source happened, its writes are visible, its outcome is the one produced, executor of the resumption), resumed exactly once, refused executors end the coroutine as cancelled, every frame and value is released."
NOTES["C14"] = COMMON + "Oracle: mutual exclusion by overlap counter and race detector on data guarded by the mutex, every locker gets the mutex, FIFO where promised, batching and where the coroutine resumes, try-lock answers."
NOTES["C15"] = COMMON + "Oracle: writer exclusion and reader sharing by overlap counters and race detector, progress of every locker, FIFO/priority options, try-lock answers."
NOTES["C19"] = "Samples operation sequences. Oracle: std::atomic executing the same sequence (results, stored value, expected), representation compared; spurious failures judged against the std contract. Trusted: libstdc++'s std::atomic, gcc."
NOTES["C17"] = COMMON + "Oracle: pairwise comparison of executions of one generated program: every random draw, fiber switch, injected yield, spurious CAS failure, client event, virtual time, random count and injector state, within one process (same or new scheduler, other programs run in between, other heap layout, clocks and system randomness) and across processes (with and without ASLR); continuation from a recorded (random count, injector state)."
NOTES["C18"] = "Samples programs and schedules. Oracle: interval model of every lock (who certainly holds it, who may hold it), virtual deadlines, what a notify owes to blocked waiters, nobody blocked on an available lock when nothing can run, join after the end, per-fiber values. Trusted: the model, gcc."
NA = {}
for _i in range(1, 21):
    if "C%02d" % _i not in PROPS:
        NA["C%02d" % _i] = "work in progress: the check is not built yet"
