#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Simulations running in one process never influence one another",
"A simulation's trajectory, the states its callbacks see and every byte it writes depend only on its own initial conditions, method and run arguments. Running other simulations before it, after it, inside its callbacks or concurrently with it on other threads, under any interleaving, changes none of them, also if they are run with the same constant run arguments. Simulations that share no user object that changes perform no conflicting unsynchronised accesses to memory.",
["schedules","histories","configurations"],
"every interleaving of 2-3 simulations on their own threads, every order of simulations run one after another, leg by leg or inside one another in a thread, over the shipped particle systems, particle types, integrators, forces and output writers",
"The regression programs each run one simulation on one thread and assert nothing; no test runs two simulations in one process, so state shared between them (function-local statics, class statics, shared buffers) is never observed.",
["src/simulator.hpp","src/args-callback/callbacks.hpp","src/ode-iterator","src/integrator","src/particle-system","src/particles","src/interaction","src/core-computation.hpp"],
[("all run state owned by the simulator object","src/simulator.hpp Simulator"),("all integrator scratch owned by the iterator","src/ode-iterator/Bulirsch-Stoer.hpp, IAS15.hpp"),("writers own their stream and reference energy","src/args-callback/callbacks.hpp")],
[("reference energy","energy the error writer compares with","src/args-callback/callbacks.hpp EnergyErrWriter")],
["states passed to run callbacks","bytes of output files","final particles of the simulator"])

p("C02","A run drives its callbacks in order and always stops cleanly",
"Each run calls every start operation once before the first step, every regular operation exactly once per state (initial, after each step, final) in the order they were registered, and every stop operation exactly once at the end, after all regular operations. A stop condition that becomes true, whatever its cause (step count, state, wall clock), ends the run before another step is taken; otherwise the run ends at the requested end time within its tolerance, and simulated time only increases until that end is reached. A later run of the same simulation continues from exactly the state where the previous one stopped.",
["histories","schedules","configurations"],
"every point at which stop conditions (step-, state- and wall-clock-based, with clock stalls and jumps) can fire, every number of operations, every split of a run into stopped and resumed pieces, over the shipped simulation methods",
"The regression programs run to a fixed end time and check nothing but their exit code; no test stops a run early, resumes one or counts callback invocations.",
["src/simulator.hpp","src/spaceHub.hpp","src/tools/timer.hpp"],
[("run loop","src/simulator.hpp Simulator::run"),("ordered callback lists","src/simulator.hpp RunArgs"),("last step clipped to the time left","src/simulator.hpp Simulator::run")],
[("step size carried between steps","src/simulator.hpp","src/simulator.hpp Simulator")],
["callback invocation history","particles' time at every invocation"])

p("C03","Rejected steps and stop/resume leave no trace in the trajectory",
"An adaptive integration in which any number of attempted steps are rejected and retried, at any point, still follows the true trajectory to its tolerance: the state after each accepted step equals the one a fresh integration of that step produces, time advances by exactly the accepted step, and a rejected attempt leaves positions, velocities, time and all auxiliary variables untouched. Interrupting a run at any step and resuming it likewise stays on the true trajectory.",
["fault_sequences","histories","configurations"],
"every sequence of injected step rejections, forced step-size changes and stop/resume points over Bulirsch-Stoer, Gauss-Radau and sequence iterators and plain, regularised and chain particle systems",
"The tests never make a step fail: rejections happen only where the fixed problems happen to cause them, and results are not compared with anything.",
["src/ode-iterator/Bulirsch-Stoer.hpp","src/ode-iterator/IAS15.hpp","src/ode-iterator/sequent-iterator.hpp","src/ode-iterator/const-iterator.hpp","src/particle-system","src/simulator.hpp"],
[("state saved before and restored after a failed attempt","src/ode-iterator/Bulirsch-Stoer.hpp iterate, IAS15.hpp iterate"),("error estimator and step controller as template parameters","src/ode-iterator")],
[("increment buffer","sum of the substeps of one attempt","src/particle-system/*.hpp")],
["particles after each step","distance from the closed-form two-body solution","energy and angular momentum"])

p("C04","Sliced callbacks fire once per due point however time advances",
"A callback wrapped to fire at equally spaced times, at geometrically spaced times or every so many steps fires at the first state at or after each due point inside its window, at most once per state, never before the first due point and never after the window's end. Several due points passed by one state cause one firing there and none later on their account. Every call returns in bounded time, for any window and any sequence of non-decreasing times, and resetting the slice makes it behave like a newly created one.",
["histories","inputs","configurations"],
"every sequence of simulated times (stalls, tiny steps, jumps over many due points, past the end), window, slice count and reset point",
"No test uses the slices; tutorials use one well-behaved window each. Misbehaviour needs a step longer than an interval, a short window, or a reset in mid-run.",
["src/args-callback/callbacks.hpp"],
[("next due time advanced past the current time","src/args-callback/callbacks.hpp TimeSlice, LogTimeSlice"),("step counter","src/args-callback/callbacks.hpp StepSlice")],
[("next due time","time of the next firing","src/args-callback/callbacks.hpp")],
["times at which the wrapped callback ran"])

p("C05","The stopwatch counts exactly the running time",
"After any sequence of start, pause, reset and read operations with any passage of time between them, the reported time equals the sum of the intervals during which the stopwatch was running, in seconds; it never decreases without a reset, and changes of the system's wall-clock time do not affect it.",
["histories","fault_sequences"],
"every sequence of operations (repeated starts and pauses included), every stall between them and every wall-clock step forwards or backwards",
"No test uses the timer, and with the real clock no test could assert an exact value or step the clock.",
["src/tools/timer.hpp"],
[("monotonic clock","src/tools/timer.hpp Timer::start/get_time"),("accumulated duration","src/tools/timer.hpp Timer::pause")],
[("accumulated duration","time counted up to the last pause","src/tools/timer.hpp Timer")],
["value returned by the stopwatch"])

p("C06","Output files hold a faithful prefix of the output through any failure",
"Whatever I/O failure or crash happens while simulation output is written, a file never holds anything but a prefix of the bytes a failure-free run would have written: column header once, then one complete row per reported state, in order, never duplicated, torn in the middle or interleaved. Interrupted and short writes lose nothing, a write failure never disturbs the simulation itself, and after an orderly end without permanent failure the file is complete.",
["fault_sequences","crash_points","schedules"],
"every sequence of short writes, interrupted writes, permanent write errors, full disk and crash points over runs with one or several writers and copies of a writer",
"The regression programs write to a healthy disk and nobody reads the files back.",
["src/args-callback/callbacks.hpp","src/particles","src/particle-system","src/IO.hpp"],
[("one stream shared by copies of a writer","src/args-callback/callbacks.hpp DefaultWriter"),("header written once","src/args-callback/callbacks.hpp DefaultWriter::operator()")],
[("header flag","whether the header was written","src/args-callback/callbacks.hpp DefaultWriter")],
["bytes on the simulated disk","simulation's final state"])

p("C07","A file shared between threads stays atomic per record",
"Records written by any number of threads through a thread-safe file (or any copy of it) appear in the file exactly once, each contiguous, and each thread's records in the order it wrote them; a callback executed on the file has it exclusively. Concurrent readers together receive every record exactly once, a read past the end or after an I/O error reports failure instead of delivering data, and what was flushed successfully survives a crash.",
["schedules","crash_points","fault_sequences"],
"every interleaving of writers, readers, exclusive callbacks, flushes and end-of-file queries on 2-4 threads, every short/failed read or write and crash point",
"No test uses the thread-safe file; a lost lock shows only in particular interleavings.",
["src/multi-thread/multi-thread.hpp"],
[("mutex around every operation, shared by copies","src/multi-thread/multi-thread.hpp ConcurrentFile")],
[("stream and mutex","shared by all copies of the file","src/multi-thread/multi-thread.hpp ConcurrentFile")],
["bytes on the simulated disk","records delivered to readers"])

p("C08","Fork-join helpers run every share of the work exactly once, then join",
"A parallel loop over N items executes every item exactly once for every N and thread count; the multi-thread helpers run the job exactly once per requested thread, with each index once where indices are passed, and every thread receives the same arguments. When the call returns all of that work has finished and its effects are visible to the caller. If a thread cannot be created the failure is reported as an exception after the threads already started have finished, and the program keeps running.",
["schedules","inputs","fault_sequences","configurations"],
"every interleaving, N, thread count (below, equal to and above N), kind of callable and argument (lvalues and temporaries), machine core count and thread-creation failure",
"No test uses the helpers; a lost tail needs particular N and thread counts, a moved-from argument a temporary, and thread-creation failure cannot be produced in a test.",
["src/multi-thread/multi-thread.hpp"],
[("partition into per-thread ranges","src/multi-thread/multi-thread.hpp multi_threads_loop"),("join of every thread","src/multi-thread/multi-thread.hpp")],
[],["executed item and thread counts","memory visible after the call"])

p("C09","Every task committed to the thread pool runs once and shutdown is clean",
"Each task accepted by the thread pool runs exactly once on a pool thread with the arguments it was committed with, and its future delivers its result or its exception and makes its effects visible to the waiter; as long as the pool lives no accepted task waits forever. Destroying the pool, at any moment and with any number of tasks queued or running, terminates: running tasks finish, and a task that was not started reports a broken promise, never a hang. When a thread cannot be created or memory runs out, the caller that needed it is told, and the process and every task accepted go on.",
["schedules","histories","configurations"],
"every interleaving of 1-3 committing threads, 1-4 workers and the pool's shutdown, with spurious wake-ups, tasks that throw, tasks that commit further tasks, threads that cannot be created and failing allocations",
"No test uses the pool; a lost wake-up needs the shutdown to fall between a worker's check and its wait.",
["src/multi-thread/thread_pool.h"],
[("queue guarded by a mutex","src/multi-thread/thread_pool.h commit"),("condition variable","src/multi-thread/thread_pool.h worker loop, destructor")],
[("stop flag","set by the destructor","src/multi-thread/thread_pool.h ThreadPool")],
["task execution history","future results","process exit"])

p("C10","The blocking queue neither loses nor duplicates items nor strands waiters",
"Each item inserted at either end of the concurrent queue is delivered to at most one consumer, in queue order, and to exactly one when enough consumers pop before the queue is stopped; any history of operations is that of a double-ended sequence on which each acts at one moment, and an insertion that fails for lack of memory has no effect. Stopping or destroying the queue, at any moment, wakes every waiting consumer, which then reports that nothing was delivered.",
["schedules","histories"],
"every interleaving of 1-3 producers, 1-3 consumers, front and back operations and a stop, with spurious wake-ups and failing allocations",
"No test uses the queue (its blocking pop was never even instantiated).",
["src/multi-thread/concurrent-queue.h"],
[("mutex and condition variable","src/multi-thread/concurrent-queue.h ConcurrentDeque")],
[("stop flag","queue closed","src/multi-thread/concurrent-queue.h ConcurrentDeque")],
["push/pop history checked against a sequential deque"])

p("C11","Asynchronous record streams deliver every record once, in order",
"Records inserted into an asynchronous output stream reach its file exactly once, in insertion order, no later than the stream's destruction; records of a file read through an asynchronous input stream are delivered exactly once, in file order, followed by an end-of-stream report. Creating, using and destroying either stream at any moment, with an unreadable, empty or failing file included, terminates and delivers no record that is not in the file.",
["schedules","fault_sequences","crash_points"],
"every interleaving of user threads and the stream's I/O thread from construction to destruction, spurious wake-ups, short reads and writes, read errors and missing files",
"No test uses the streams; their start-up and shut-down races need particular schedules.",
["src/multi-thread/ciostream.hpp"],
[("background I/O thread with a queue","src/multi-thread/ciostream.hpp Opip, Ipip"),("drain on destruction","src/multi-thread/ciostream.hpp Opip")],
[("queue, stop and end-of-queue flags","hand-over state","src/multi-thread/ciostream.hpp")],
["bytes on the simulated disk","records delivered"])

p("C12","Task graphs run each task exactly as often as its dependencies dictate",
"In every run of a task graph each task starts only after all its predecessors of that run have finished, and sees their effects; every task not behind a branch runs exactly once per run, and a branch task is followed by exactly the successor it selects (none when it selects none), loops included. Repeated runs, nested graphs and runs submitted concurrently from several threads execute the requested number of times without overlapping runs of the same graph.",
["schedules","programs","configurations"],
"every interleaving of 1-4 workers and 1-3 submitting threads over generated graphs of static, branching, nested and dynamic tasks",
"The vendored executor has no tests here; ordering bugs need particular graphs and schedules.",
["src/taskflow/core/executor.hpp","src/taskflow/core/graph.hpp","src/taskflow/core/flow_builder.hpp","src/taskflow/core/task.hpp","src/taskflow/core/taskflow.hpp","src/taskflow/core/topology.hpp"],
[("join counters","src/taskflow/core/graph.hpp Node"),("successor scheduling","src/taskflow/core/executor.hpp _invoke"),("per-graph run queue","src/taskflow/core/executor.hpp run_until/_tear_down_topology")],
[("join counter","predecessors still to finish","src/taskflow/core/graph.hpp Node")],
["task execution history checked against a sequential interpreter of the graph"])

p("C13","Submitted graphs and executor shutdown always make progress",
"Every submitted run of a task graph finishes and its future and completion callback fire exactly once, waiting for all submitted work returns only after all of it has finished, and destroying an executor returns after finishing what was submitted. No schedule, spurious wake-up, worker count or timing of submissions from inside or outside the workers leaves runnable work behind while workers sleep. A submission or an executor that cannot be made (a predicate, callback or copy that throws, no memory, no thread) is reported to its caller and leaves nothing behind that anything would wait for.",
["schedules","configurations","histories"],
"every interleaving of 1-4 workers and 1-3 submitting threads, submissions while workers fall asleep, from within tasks, and destruction right after submission, submissions that throw, threads that cannot be created, failing allocations while submitting asynchronous tasks; progress bounded in simulated steps",
"A missed wake-up of a sleeping worker needs a particular interleaving of a few instructions; no test here runs an executor.",
["src/taskflow/core/executor.hpp","src/taskflow/core/notifier.hpp","src/taskflow/core/tsq.hpp"],
[("two-phase sleep of idle workers","src/taskflow/core/notifier.hpp"),("running-graph count","src/taskflow/core/executor.hpp"),("actives/thieves accounting","src/taskflow/core/executor.hpp _explore_task/_wait_for_task")],
[("waiter stack","sleeping workers","src/taskflow/core/notifier.hpp")],
["futures, callbacks, return of waits and destructors within a step bound"])

p("C14","Semaphores and critical sections bound concurrency without starving tasks",
"At no instant do more tasks run under a semaphore than its limit, whichever graphs, runs or nested graphs they belong to; a critical section runs its tasks one at a time with their effects visible to each other. Every task constrained by semaphores still runs exactly once per run, and when all work has finished each semaphore is back at its initial count.",
["schedules","programs"],
"every interleaving of 1-4 workers over generated graphs in which tasks acquire and release 1-2 semaphores with limits 1-2, alone or in several concurrent runs",
"No test runs tasks under a semaphore; exceeding the limit or losing a waiting task needs a race between release and acquire.",
["src/taskflow/core/semaphore.hpp","src/taskflow/core/executor.hpp","src/taskflow/core/algorithm/critical.hpp","src/taskflow/core/graph.hpp"],
[("counter and waiter list under a mutex","src/taskflow/core/semaphore.hpp"),("roll-back of partly acquired sets","src/taskflow/core/graph.hpp _acquire_all")],
[("count and waiters","tokens left, tasks parked","src/taskflow/core/semaphore.hpp")],
["concurrency level inside semaphore-guarded tasks","task execution history"])

p("C15","Cancelling a run stops it soon, completely and safely",
"After a run is cancelled no task starts that was not already being started, its future still becomes ready, and the executor, the graph and other runs stay usable: later runs of the same graph execute normally and completely. Cancelling at any moment, including before the start, during the last task and after completion, never hangs or corrupts anything, and cancel reports whether the run was still unfinished.",
["schedules","histories"],
"every moment of a run at which one or two threads can cancel it, 1-4 workers, single, repeated and concurrent runs, graphs, nested and asynchronous work",
"Cancellation races with scheduling; no test cancels anything.",
["src/taskflow/core/executor.hpp","src/taskflow/core/topology.hpp","src/taskflow/core/taskflow.hpp"],
[("cancellation flag checked before each task","src/taskflow/core/executor.hpp _invoke"),("graph join counters re-initialised per run","src/taskflow/core/executor.hpp")],
[("cancelled flag","run is to stop","src/taskflow/core/topology.hpp")],
["task execution history before and after cancellation","future readiness"])

p("C16","Parallel algorithms give exactly the sequential result",
"Parallel for-each loops visit every element or index once, parallel reductions and transform-reductions combine every element and the initial value exactly once, and parallel sorts return an ordered permutation, with all effects visible to successor tasks. This holds for every size including empty and single-element ranges, every worker count and partition, every chunk size and every schedule.",
["schedules","inputs","configurations"],
"every interleaving of 1-4 workers over generated sizes 0-40, steps, chunk sizes, value types and partitioners (guided, dynamic, static), with ranges bound late by earlier tasks",
"No test runs the algorithms; chunk hand-out races and boundary sizes need particular schedules.",
["src/taskflow/core/algorithm/for_each.hpp","src/taskflow/core/algorithm/reduce.hpp","src/taskflow/core/algorithm/sort.hpp"],
[("atomic chunk counter","src/taskflow/core/algorithm/for_each.hpp, reduce.hpp"),("merge of partial results under a lock","src/taskflow/core/algorithm/reduce.hpp")],
[("next chunk counter","hand-out position","src/taskflow/core/algorithm")],
["visited elements, reduction value, sorted range"])

p("C17","Asynchronous and dynamically spawned tasks complete before their join",
"Every asynchronous task runs exactly once and its future delivers its value, its effects and its exception-free completion; tasks spawned dynamically by a task, at any depth, all finish before that task's successors start when joined, or before the run's completion when detached. Waiting for all work covers asynchronous tasks, whether submitted from outside, from tasks or from other asynchronous tasks.",
["schedules","programs"],
"every interleaving of 1-4 workers over generated nests of spawned and asynchronous tasks, joined, detached or implicit, submitted from 1-3 threads",
"No test spawns tasks; premature joins need a spawn racing with the completion of its siblings.",
["src/taskflow/core/executor.hpp","src/taskflow/core/flow_builder.hpp","src/taskflow/core/graph.hpp"],
[("parent's join counter","src/taskflow/core/executor.hpp _invoke_dynamic_task, named_async"),("count of running graphs and asyncs","src/taskflow/core/executor.hpp")],
[("parent join counter","children still to finish","src/taskflow/core/graph.hpp Node")],
["spawn/finish history","future values"])

p("C18","The work-stealing queue hands out each task exactly once",
"Every item the owner pushes into the work-stealing queue is obtained exactly once, either by the owner's pop (most recent first) or by one thief's steal (oldest first), and is obtained fully initialised; nothing is lost or duplicated when the queue grows, wraps around or runs empty. Once the owner and the thieves stop, what was not taken is still in the queue.",
["schedules","histories"],
"every interleaving of one owner and 1-3 thieves over generated push/pop/steal sequences with small initial capacities, in sequentially consistent and relaxed memory",
"Losing or duplicating an item needs a pop and a steal of the last item, or a growth, to overlap; no test uses the queue.",
["src/taskflow/core/tsq.hpp"],
[("compare-and-swap on the top index","src/taskflow/core/tsq.hpp pop/steal"),("fences and release/acquire order","src/taskflow/core/tsq.hpp"),("array growth keeping old arrays alive","src/taskflow/core/tsq.hpp resize")],
[("top and bottom indices","range of queued items","src/taskflow/core/tsq.hpp")],
["push/pop/steal history checked for exactly-once and order"])

p("C19","Random draws are isolated per thread, reproducible and within bounds",
"The random numbers a thread draws depend only on the entropy that thread was given and its own calls, never on what other threads draw or on how they interleave, and concurrent drawing performs no conflicting accesses. Every draw lies within the bounds the caller asked for, and a draw from a parameter with no bounds set returns for any distribution. The same holds for what the library draws itself: random angles and phases of orbits, and the incident orbits of scattering experiments, which keep every element that was given.",
["schedules","inputs"],
"every interleaving of 1-4 threads drawing from all generators with simulated entropy, every bound and distribution parameter",
"With real entropy and unsynchronised threads no test can compare two executions; no test draws numbers.",
["src/rand-generator.hpp","src/orbits/orbits.hpp","src/scattering/cross-section.hpp"],
[("one generator per thread","src/rand-generator.hpp static thread_local"),("rejection of draws outside the bounds","src/rand-generator.hpp Parameter::draw")],
[("generator state","per thread and distribution","src/rand-generator.hpp")],
["sequences drawn by each thread"])

p("C20","Automatic names are unique, and reading configuration survives I/O faults",
"Automatically generated file names never repeat within a process, whatever prefixes are asked for, from however many threads, and whatever the clock does. A configuration file read through any sequence of short or interrupted reads yields exactly the values it holds. A missing key, a value that is not of the type asked for, and a file that cannot be read or was cut short before the value are reported and never yield a made-up value.",
["schedules","fault_sequences","histories"],
"every interleaving of 1-3 naming threads, every clock stall and step backwards, every prefix sequence; every short, interrupted or failing (for good or once) read of generated configuration files, every point at which the crash of its writer can cut one short",
"Tests can neither step the clock nor make reads fail; nothing tests either component.",
["src/tools/auto-name.hpp","src/tools/config-reader.hpp"],
[("duplicate counter","src/tools/auto-name.hpp"),("key-value map","src/tools/config-reader.hpp")],
[("last name and duplicate count","names handed out","src/tools/auto-name.hpp")],
["returned names","returned values and reported errors"])

p("C21","Substep-parallel extrapolation computes the same trajectory as the serial one",
"With substep parallelism switched on, the extrapolation integrator produces the same trajectory as the serial build, to the last bit, for every interleaving of its workers, and several such simulations in one process, one after another or concurrently, work independently. Its substeps perform no conflicting unsynchronised accesses.",
["schedules","configurations","histories"],
"every interleaving of the substep worker with the caller over 1-2 simulations, run in sequence or concurrently, with injected step rejections",
"The option is never switched on in any test.",
["src/ode-iterator/Bulirsch-Stoer.hpp"],
[("each substep sequence works on its own copy of the particles and its own table row","src/ode-iterator/Bulirsch-Stoer.hpp iterate"),("join before extrapolation","src/ode-iterator/Bulirsch-Stoer.hpp iterate")],
[("extrapolation table rows","written by caller and worker","src/ode-iterator/Bulirsch-Stoer.hpp")],
["particles after each step"],"existing opt-in macro BS_SUBSTEP_PARALLEL")

p("C22","Executor observers see every task's begin and end, paired",
"An observer attached to an executor receives exactly one begin and one matching end notification for every task execution, on the worker that ran it, the begin before and the end after the task itself, and nothing for work that did not run. Profiles collected by the built-in observers contain every executed task with non-negative, non-overlapping spans per worker nesting level, whatever the clock does between tasks.",
["schedules","programs"],
"every interleaving of 1-4 workers over generated graphs, spawned and asynchronous tasks with one or two observers attached, and clock stalls",
"No test attaches an observer.",
["src/taskflow/core/observer.hpp","src/taskflow/core/executor.hpp"],
[("prologue and epilogue around each task","src/taskflow/core/executor.hpp _observer_prologue/_observer_epilogue")],
[("per-worker segment lists","recorded spans","src/taskflow/core/observer.hpp")],
["notification history against task execution history","dumped profile"])

p("C23","Object pool hands out distinct storage, loses none, reports exhaustion",
"However many threads allocate and recycle objects of an object pool, and whichever thread gives an object back, live objects never overlap, are aligned and constructed with the arguments given, keep their content until recycled, and are destroyed exactly once; recycled storage is used again, so memory stays bounded by the peak number of live objects; and when memory runs out or a constructor throws, the failure is reported to its caller, nothing is lost, and the pool remains usable by every thread.",
["schedules","faults"],
"every interleaving of several threads and heaps, every order of giving back, and a failing memory allocation at any point",
"The pool tests allocate in one run without memory pressure and never check content; alignment, bounded memory and failed allocations are not looked at, nor are the weak-memory races of blocks moving between heaps.",
["src/taskflow/utility/object_pool.hpp"],
[("per-heap mutex, lists of blocks by occupancy","src/taskflow/utility/object_pool.hpp ObjectPool::animate/recycle"),("moving underused blocks to the global heap","src/taskflow/utility/object_pool.hpp recycle")],
[("blocks and their free lists","which objects are live","src/taskflow/utility/object_pool.hpp")],
["addresses, contents and lifetimes of all objects","pool statistics","allocator traffic"])

# honest not-applicables
p("N01","Orbital elements and Cartesian coordinates convert losslessly",
"Converting orbital elements to relative position and velocity and back yields the same elements to floating-point accuracy for every orbit type, and anomaly conversions invert each other.",
["inputs"],"every eccentricity, inclination and anomaly, elliptic to hyperbolic",
"Tests sample no conversions.",["src/orbits/orbits.hpp"],[("closed-form conversions and Kepler solver","src/orbits/orbits.hpp")])
p("N02","Vector, array-expression and small-vector arithmetic is exact elementwise",
"Vector and lazily evaluated array expressions compute elementwise exactly what the scalar expression computes, and the small vector behaves as a standard sequence.",
["inputs"],"every expression and size","Unit tests sample a few random vectors.",["src/vector","src/lazy-evaluation","src/small-vector.hpp"],[("expression templates","src/lazy-evaluation")])
p("N03","Chain coordinates and physical coordinates describe the same system",
"Transforming positions and velocities to chain coordinates and back, for every chain ordering, returns the original values to rounding, and re-linking a chain never changes the physical state.",
["inputs"],"every particle configuration","Unit tests sample random configurations.",["src/particle-system/chain.hpp"],[("chain index, calc_chain/calc_cartesian","src/particle-system/chain.hpp")])
p("N04","Forces obey their physical symmetries",
"Pairwise conservative forces are equal and opposite, do not depend on particle order beyond rounding, and vanish with the coupling.",
["inputs"],"every particle configuration","Regression programs only run to completion.",["src/interaction","src/core-computation.hpp"],[("pair loops","src/interaction/newtonian.hpp, post-newtonian.hpp, tidal.hpp")])
p("N05","Particle tables written as text read back identically",
"A particle state written to a stream with full precision and parsed back yields the same masses, positions and velocities.",
["inputs"],"every particle type and value","Unit tests sample construction and access only.",["src/particles","src/IO.hpp"],[("stream operators","src/particles/point-particles.hpp")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
