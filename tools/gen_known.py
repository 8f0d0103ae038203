#!/usr/bin/env python3
"""Write the "fixed" list of known_findings.json (the "findings" list is edited by hand)."""
import json, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
FIXED = [
 ("C08","f3e2054","multi_threads_loop skipped the last items whenever the number of items is no multiple of the number of threads"),
 ("C08","3684264","the fork-join helpers moved the job and its arguments into the first thread, the others received empty ones"),
 ("C08","824d231","the fork-join helpers called std::terminate when a thread could not be created"),
 ("C09","2ebe8da","the ThreadPool destructor could miss a worker about to sleep and wait for it for ever (lost wake-up)"),
 ("C10","1e0b5cc","ConcurrentDeque::try_pop_front/back(timeout) did not compile"),
 ("C10","44c0a76","ConcurrentDeque::stop could miss a consumer about to wait, which then slept for ever"),
 ("C10","d2a3993","the ConcurrentDeque destructor freed mutex and condition variable under the consumers it had just woken"),
 ("C11","ff8cd4b","Costream could not be inserted into (did not compile) and Cistream never reported the end of its input"),
 ("C11","c5af8d1","the asynchronous streams started their thread before the flags it reads were initialised"),
 ("C11","c47b062","Ipip delivered a record that is not in the file at its end, and endless ones if the file cannot be read"),
 ("C05","df56e6e","starting a running Timer dropped the time already counted"),
 ("C19","cca2b28","random::Parameter without bounds never returned for values that are not positive"),
 ("C20","5b67bfc","ConfigReader silently accepted a file it could read only in part"),
 ("C20","4f66404","ConfigReader returned an indeterminate value for text that is not of the type asked for, cut strings at blanks, and took a line without a divider for a key"),
 ("C20","851682f","auto_name repeated names for several prefixes in one second, when the clock stepped back, and between threads"),
 ("C04","4c9308c","LogTimeSlice could loop for ever and kept its old start on reset; TimeSlice needed one iteration per missed point"),
 ("C04","1d56cd3","TimeSlice and LogTimeSlice stopped for good when neighbouring due points round to the same time"),
 ("C02","4dd77cc","stop conditions with state (StepSlice) were copied for every check, so they never fired"),
 ("C02","8ebbb93","a run whose stop time is not ahead of its start ran away or backwards; stop time zero divided by zero"),
 ("C03","3fdc18b","a first extrapolation step that is too large was retried unchanged until the program gave up"),
 ("C03","ffed904","a first extrapolation step converging in the last column made the next step use a column that does not exist"),
 ("C03","a4fd056","the general extrapolation step (BurlishStoer ODE) advanced the time with every substep of every attempt"),
 ("C03","159ab3f","the general extrapolation mixed odd and even midpoint rules, so converged columns were wrong"),
 ("C03","26825bc","IAS15 ended the program when the corrector converged slowly instead of retrying with a smaller step"),
 ("C03","40e7724","step_scale of regularised systems was that of the last substep, so a retried step (and, for C21, a parallel one) was scaled differently"),
 ("C06","5034c90","the reference energy of EnergyErrWriter was one function-local static for all writers and simulations of the process (C01 too)"),
 ("C21","49a053b","substep-parallel extrapolation kept references to the first step of the first simulation and could not be copied"),
 ("C12","12240f0","submitting a task graph already running read its nodes while the run changed them"),
 ("C12","5de3382","runs repeated by run_n/run_until started with join counters left over from branches not taken and ran tasks too early"),
 ("C12","f98507c","a task graph run by itself after it had been composed joined the module task of the earlier run and never ended"),
 ("C12","cbd580f","a composed task graph ran again the tasks detached by an earlier run of its own"),
 ("C13","3a6d7cb","submissions with nothing to run (empty graph, zero repeats, predicate true at once) did not invoke their callback"),
 ("C13","0a07055","num_topologies read the count without the lock the workers change it under"),
 ("C14","336d756","a task queued to wait for a second semaphore went on touching its semaphores although it could already run elsewhere"),
 ("C15","0ea143c","the cancellation flag of a run was written and read by several threads without synchronisation"),
 ("C15","733d7a6","cancelling a finished run reported success if another run of the same graph was queued"),
 ("C16","1712c92","the parallel sort kept a reference to a copy of the comparator that was already destroyed"),
 ("C16","84efafd","a parallel index loop over an empty range with step zero divided by zero"),
 ("C18","7f2768c","a work-stealing queue that grew published its new array without making its content visible to thieves"),
 ("C22","4c06004","TFProfObserver::num_tasks counted nesting levels instead of tasks"),
 ("C23","2e70445","the object pool kept its heap locked for ever when memory ran out"),
 ("C23","4bb5a18","recycling an object raced with moving its block to another heap"),
 ("C09","1249f24","a thread pool whose threads could not all be created ended the process"),
 ("C09","35893bb","a pool worker copied the task it took, and ended the process when there was no memory for the copy"),
 ("C13","1d34d71","an executor whose workers could not all be created ended the process"),
 ("C23","2701a5f","the place of an object whose constructor threw was lost to the object pool"),
 ("C13","1f0cfab","workers that started before the others were set up read the data of those others unsynchronised"),
 ("C13","80948bc","a submission that threw (predicate, callback, copy of the callable, no memory) left the executor or the subflow waiting for ever"),
]
d = json.load(open(F))
d["fixed"] = ["fixed: property=%s %s %s" % x for x in FIXED]
with open(F, "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
print(len(FIXED))
