"""What each check runs: scenarios (source file, unit = compiled binary, share of the time) and bounds."""

FAST = ["-fno-sanitize=thread", "-O2"]  # single-threaded scenarios: no instrumentation needed
INST = ["-include", "instantiate.h"]
STUBS = ["thread scheduling (seeded scheduler over real pthreads, one runs at a time)", "mutexes, condition variables, once, guards, joins (simulated)",
         "clocks and sleeps", "hardware_concurrency", "entropy (std::random_device)"]
DISK = "disk: open/read/write/seek/close of paths under /sim (in-memory, with faults)"
ALLOC = "allocator (checking arena)"


def sc(unit, names, src=None, defs=(), **kw):
    out = []
    for n in names:
        w = 1
        if isinstance(n, tuple):
            n, w = n
        d = dict(kw)
        d.update(name=n, unit=unit, src=src or unit + ".cpp", defs=list(defs), weight=w)
        out.append(d)
    return out


CHECKS = {
    "C01": {"real": ["src/simulator.hpp", "src/particle-system/*", "src/integrator/*", "src/ode-iterator/*", "src/interaction/* (Newtonian, post-Newtonian, tidal, gas drag, magnetised disk)", "src/args-callback/callbacks.hpp", "libstdc++ stream templates, instrumented"],
            "stub": STUBS + [DISK], "quick_secs": 62, "thorough_secs": 1800, "hang": 60,
            "scenarios": [s for g in "0123" for s in sc("c01_g" + g, [("iso_threads", 2), ("iso_order", 1)] + ([("iso_one_args", 1)] if g in "01" else []), src="c01_isolated.cpp", defs=["-DGROUP=" + g] + INST)
                          + sc("c01_fast" + g, ["iso_order", "iso_nested"], src="c01_isolated.cpp", defs=["-DGROUP=" + g] + FAST)],
            "assumptions": ["simulations that share a user object (a writer, a file) are not independent and not judged"]},
    "C02": {"real": ["src/simulator.hpp", "particle systems and integrators of src/ (BS, Radau, symplectic, regularised, chain)"], "stub": STUBS, "quick_secs": 60, "thorough_secs": 1500,
            "scenarios": sc("c02_run", ["run_const_sym", "run_bs", "run_radau", "run_seq", "run_archain", "run_const_regu"])
            + sc("c02_fast", [("run_const_sym", 2), ("run_bs", 2), ("run_radau", 2), ("run_seq", 2), ("run_archain", 2), ("run_const_regu", 2)], src="c02_run.cpp", defs=FAST),
            "assumptions": ["step sizes are positive and within what the method can resolve"]},
    "C03": {"real": ["src/ode-iterator/* (BulirschStoer, IAS15, SequentOdeIterator, error checkers, PID controller)", "src/integrator/*", "src/particle-system/*", "src/simulator.hpp"],
            "stub": STUBS + ["error estimator and step controller (real ones, wrapped to inject rejections)"], "quick_secs": 70, "thorough_secs": 1800, "hang": 20,
            "scenarios": sc("c03_fast", [("reject_bs", 3), ("reject_bs_regu", 3), ("reject_bs_ttl", 2), ("reject_bs_chain", 2), ("reject_radau", 2), ("reject_seq", 1), ("reject_ode", 1)], src="c03_reject.cpp", defs=FAST)
            + sc("c03_reject", ["reject_bs", "reject_bs_regu", "reject_radau"]),
            "assumptions": ["a step is judged against an independent integration of the same step, within a multiple of the requested tolerance",
                            "SequentOdeIterator accepts a step after its last refinement: its steps are judged only when its own estimate says it converged"]},
    "C04": {"real": ["src/args-callback/callbacks.hpp (TimeSlice, LogTimeSlice, StepSlice)"], "stub": STUBS, "quick_secs": 40, "thorough_secs": 900, "hang": 4,
            "scenarios": sc("c04_slices", [("slice_time", 2), ("slice_log", 2), ("slice_step", 1)]),
            "assumptions": ["a step interval of zero is not a step interval", "due points within rounding of a state may be counted with that state or the next one",
                            "the due points of LogTimeSlice are start + (end-start)^(k/n), k=1..n; for windows not longer than one time unit only bounds and progress are judged"]},
    "C05": {"real": ["src/tools/timer.hpp"], "stub": STUBS, "quick_secs": 25, "thorough_secs": 300,
            "scenarios": sc("c05_timer", ["timer"]),
            "assumptions": ["reading a clock takes a bounded, known amount of simulated time"]},
    "C06": {"real": ["src/args-callback/callbacks.hpp (DefaultWriter, EnergyErrWriter)", "src/simulator.hpp", "particle stream operators", "libstdc++ stream templates, instrumented"],
            "stub": STUBS + [DISK], "quick_secs": 60, "thorough_secs": 1500,
            "scenarios": sc("c06_writers", ["write_short", "write_many", "write_fail", "write_crash", "write_open"], defs=INST),
            "assumptions": ["a write the simulated disk acknowledged is durable"]},
    "C07": {"real": ["src/multi-thread/multi-thread.hpp (ConcurrentFile)", "libstdc++ stream templates, instrumented"], "stub": STUBS + [DISK],
            "quick_secs": 60, "thorough_secs": 1500,
            "scenarios": sc("c07_file", ["file_write", "file_read", "file_read_fault", "file_crash", "file_write_fault"], defs=INST),
            "assumptions": ["a write the simulated disk acknowledged is durable"]},
    "C08": {"real": ["src/multi-thread/multi-thread.hpp (fork-join helpers)"], "stub": STUBS, "quick_secs": 50, "thorough_secs": 1200,
            "scenarios": sc("c08_forkjoin", ["loop", "multi", "indexed", "nested", "thread_fail"], cpus=[4, 1, 3, 0, 2, 6, 8, 5]),
            "assumptions": []},
    "C09": {"real": ["src/multi-thread/thread_pool.h"], "stub": STUBS, "quick_secs": 60, "thorough_secs": 1500,
            "scenarios": sc("c09_pool", [("pool_all", 2), ("pool_exit", 2), ("pool_many", 2), ("pool_meet", 1), ("pool_resources", 1.5), ("pool_full", 1)], cpus=[3, 1, 2, 4, 0]),
            "assumptions": ["the pool is destroyed when the process exits, the only way the public interface offers"]},
    "C10": {"real": ["src/multi-thread/concurrent-queue.h"], "stub": STUBS, "quick_secs": 45, "thorough_secs": 1200,
            "scenarios": sc("c10_queue", [("queue_all", 2), ("queue_seq", 1), ("queue_stop", 2), ("queue_linear", 2)]),
            "assumptions": ["when the queue is destroyed its consumers are inside a pop and nobody starts another"]},
    "C11": {"real": ["src/multi-thread/ciostream.hpp", "libstdc++ stream templates, instrumented"], "stub": STUBS + [DISK], "quick_secs": 70, "thorough_secs": 1500,
            "scenarios": sc("c11_streams", ["out_stream", "out_pipe", "out_reassign", "out_fault", "in_stream", "in_fault", "in_shared"], defs=INST),
            "assumptions": ["the record type's own operators write and parse whole records"]},
    "C19": {"real": ["src/rand-generator.hpp", "src/orbits/orbits.hpp and src/scattering/cross-section.hpp (what draws)"], "stub": STUBS, "quick_secs": 40, "thorough_secs": 900,
            "scenarios": sc("c19_random", [("rng_isolated", 2), ("rng_parameter", 1), ("rng_orbits", 1)]),
            "assumptions": ["bounds are checked to a relative tolerance of 1e-11 (rounding of pow and log10)"]},
    "C20": {"real": ["src/tools/auto-name.hpp", "src/tools/config-reader.hpp"], "stub": STUBS + [DISK], "quick_secs": 45, "thorough_secs": 900,
            "scenarios": sc("c20_names", ["auto_name", "config"]),
            "assumptions": ["names already on disk from an earlier process are out of scope"]},
}


CHECKS["C21"] = {
    "real": ["src/ode-iterator/Bulirsch-Stoer.hpp with BS_SUBSTEP_PARALLEL", "src/taskflow/core (executor)", "src/simulator.hpp", "src/particle-system/*"], "stub": STUBS,
    "quick_secs": 45, "thorough_secs": 1500, "hang": 60,
    "scenarios": sc("c21_substep", ["sub_order", "sub_threads"], also=[("c21_substep.cpp", ["-DSERIAL"])]),
    "assumptions": ["the reference is the same source built without BS_SUBSTEP_PARALLEL"]}


TF = ["src/taskflow/core (executor, graph, flow builder, topology, work-stealing queue, notifier, semaphore)", "src/taskflow/utility (object pool and others)"]
CHECKS["C12"] = {
    "real": TF, "stub": STUBS, "quick_secs": 60, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c12_graph", [("graph_dag", 2), ("graph_branch", 2), ("graph_reuse", 1)]),
    "assumptions": ["a graph is not composed into two running graphs at once", "graphs have a task without predecessors", "a task has predecessors of one kind, branching or not"]}
CHECKS["C13"] = {
    "real": TF, "stub": STUBS, "quick_secs": 60, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c13_progress", [("progress_submit", 2), ("progress_meet", 1), ("progress_two", 1), ("progress_refused", 1)]),
    "assumptions": ["tasks do not wait for their own executor", "tasks that wait for each other have as many workers", "a run whose set-up on the submitting thread runs out of memory is not judged"]}
CHECKS["C14"] = {
    "real": TF, "stub": STUBS, "quick_secs": 55, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c14_semaphore", [("semaphores", 4), ("critical", 2), ("held_across_join", 0.5)]),
    "assumptions": ["a semaphore is used with one executor", "the program's own use of semaphores is free of deadlock",
                    "a task holding a semaphore across a join next to joins of tasks that need it is a known finding, explored by its own scenario"]}
CHECKS["C15"] = {
    "real": TF, "stub": STUBS, "quick_secs": 60, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c15_cancel", [("cancel_graph", 3), ("cancel_queued", 1.5), ("cancel_async", 1.5), ("cancel_semaphore", 1.5), ("cancel_split_semaphore", 0.3)]),
    "assumptions": ["a semaphore taken in one task and given back in another, cancelled in between, is a known finding, explored by its own scenario"]}
CHECKS["C16"] = {
    "real": TF, "stub": STUBS, "quick_secs": 60, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c16_algorithms", [("loop_iterators", 1), ("loop_indices", 1), ("reductions", 1), ("reduce_values", 0.7), ("sort_objects", 1), ("sort_strings", 0.5)]),
    "assumptions": ["ranges are valid", "reduction operators are associative and commutative"]}
CHECKS["C18"] = {
    "real": ["src/taskflow/core/tsq.hpp"], "stub": STUBS, "quick_secs": 45, "thorough_secs": 1500,
    "scenarios": sc("c18_queue", [("steal_strong", 1), ("steal_weak", 2), ("steal_last", 1), ("steal_shared", 1)]),
    "assumptions": ["only the owner pushes and pops, or pushes are ordered by a lock"]}
CHECKS["C17"] = {
    "real": TF, "stub": STUBS, "quick_secs": 55, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c17_async", [("spawn_nests", 3), ("async_nests", 2)]),
    "assumptions": ["tasks do not wait for their own executor", "a spawned graph that is detached starts no asynchronous tasks of its own"]}
CHECKS["C22"] = {
    "real": TF, "stub": STUBS + [DISK], "quick_secs": 50, "thorough_secs": 1800, "hang": 30,
    "scenarios": sc("c22_observer", [("observed_graphs", 3), ("observed_names", 1), ("collected_profiles", 1)]),
    "assumptions": ["observers are added and removed while the executor is idle"]}
CHECKS["C23"] = {
    "real": ["src/taskflow/utility/object_pool.hpp"], "stub": STUBS, "quick_secs": 45, "thorough_secs": 1500,
    "scenarios": sc("c23_pool", [("pool_threads", 1.5), ("pool_no_memory", 1), ("pool_bounded", 0.7), ("pool_migrate", 2)]),
    "assumptions": []}


def REAL_STUB(chk):
    return {"real": chk["real"], "stubbed": chk["stub"] + [ALLOC]}
