#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (jobs.PROPS) and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import jobs
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}
TECH = "runtime monitoring: "
SYNC = "controlled-schedule executions of generated client programs on the real type; every quiescent point checked online against an executable specification (permits, counts, phases, deadlines)"
BYPROP = {
 "C03": ("happens-before race detection (own vector-clock detector under controlled schedules, and ThreadSanitizer on native threads) over client payload accesses ordered only by the yamc object", None),
 "C12": ("generated programs with and without contract violations on the checked mutexes, run under controlled schedules; oracle: the exact set of calls which must throw, with code", None),
 "C13": ("abort mode: every generated program runs in a forked child; the parent compares the child's abort/exit/blocked outcome, and the call that aborted, with the lock specification", None),
 "C14": ("wait-for graph recorded from executions under controlled schedules; every closed cycle at a quiescent point must have produced exactly one deadlock report", None),
 "C15": ("wait-for graph recorded from executions under controlled schedules; every deadlock report must coincide with a cycle closed by that call", None),
 "C16": (SYNC, None), "C17": (SYNC, None), "C18": (SYNC, None), "C19": (SYNC, None), "C20": (SYNC, None),
 "C21": ("random operation histories on the real wrapper over a recording mock lock under ASan/UBSan; each call's effects, order, exceptions compared with an executable specification", "Held on every history observed. Single-threaded: the wrapper itself promises no synchronisation. The mock lock stands for any Lockable."),
 "C22": ("recording mock locks with injected failures (histories compared with the specification), plus contended scoped_lock programs on real mutexes under controlled schedules, watched for deadlock, livelock and retained locks", None),
 "C23": ("object-lifetime programs (last user destroys) with quarantined, poisoned storage under controlled schedules, and AddressSanitizer on native threads", None),
 "C24": ("AddressSanitizer and UndefinedBehaviorSanitizer on native threads, plus shadow-memory checks under controlled schedules", "No sanitizer report in the executions observed. Reports depend on a bad access actually being executed."),
 "C25": ("link-time interposition of the native pthread calls (recorded attributes, arguments, handles, init/destroy balance) and mixed yamc/native client programs checked online against the lock specification", None),
 "C26": ("event-stream monitor of spin loops: every failed poll must be followed by the backoff policy's prescribed yield/spin pattern", None),
 "C27": ("programs over several objects and recycled threads under controlled schedules; each object's behaviour compared with its behaviour alone", None),
 "C29": ("the wrapper headers compiled against stand-ins for the Win32, GCD and os_unfair_lock primitives; controlled-schedule executions checked online against the lock and semaphore specifications, with injected native failures and waits ending early on a coarse tick", "Held on every execution observed, on stand-ins written from the platforms' documentation: nothing here runs on Windows or macOS."),
 "C30": ("fault injection: chosen allocations made by a call fail; controlled-schedule executions in which every quiescent point is checked online against the lock specification with the failed call removed", None),
 "C31": ("the same monitors on builds without assertions and with a newer standard (g++), with another compiler and an older standard (clang++), and with the library's own diagnostics compiled in", None),
 "C32": ("processes whose globals, thread-locals, exit handlers, leaked objects and background threads use yamc objects in generated orders, under AddressSanitizer/UBSan; every operation's result is checked", "Held in every process observed; native schedules."),
 "C34": ("controlled-schedule executions; at every quiescent point the scheduler's state of each waiting thread (asleep, armed timer, or running on without progress) is compared with what its pending call may do", None),
 "C33": ("the real types inside std::lock, std::try_lock, unique_lock, shared_lock and condition_variable_any under controlled schedules, and on native threads under ThreadSanitizer; ownership, exactly-once delivery, data and progress monitored", None),
 "C35": ("fault injection: chosen readings of the deadline's clock throw; controlled-schedule executions in which every quiescent point is checked online against the lock and semaphore specifications with the failed call removed", None),
 "C36": ("the types compiled twice into one program (two translation units of one executable; two shared libraries with hidden inline functions), calls on each object spread over the parts; controlled-schedule executions judged by the same specifications, and the link itself", None),
 "C28": ("one binary per documented configuration macro value; the resulting default policy is identified from its observed behaviour", None),
}
T = {
 "lock": "controlled-schedule executions of generated programs on the real types; every quiescent point checked online against an executable lock specification",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        s = dict(jobs.PROPS[i])
        if i in BYPROP:
            s["tech"] = BYPROP[i][0]
            if BYPROP[i][1]: s["note"] = BYPROP[i][1]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH + s.get("tech", T["lock"]), level="exploration",
            level_note=s.get("note", "Held on every execution observed (see the evidence file for how many, and how many were distinct). Trusts the controlled runtime's model of pthread primitives and the compiler's instrumentation; says nothing about programs or schedules that were not generated.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet covered by a monitor")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="No hooks in /repo: instrumentation is by compiler (-fsanitize=thread ABI) and link-time interposition only. See DESIGN.md."), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
