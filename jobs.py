"""What each property runs and which observations count for it.

BINS: binary name -> list of (source, extra flags, instrumented?)
A job is Job(bin, args, quick execs, thorough execs[, kinds]): `kinds` overrides the property's.
"""
from collections import namedtuple

BINS = {}
def bin_(name, *tus, link="", libs=()):   # libs: each a list of units, linked into a shared library of its own
    BINS[name] = dict(tus=list(tus), link=link, libs=[list(l) for l in libs])
RT = ("rt/vs.cpp", "", "plain")
LOCKCORE = [("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/locks.cpp", "", "plain"), ("h/main_locks.cpp", "", "plain"), RT]
SPIN = ("h/lk_spin.cpp", "", "inst"); ALT = ("h/lk_alt.cpp", "", "inst"); FAIR = ("h/lk_fair.cpp", "", "inst"); CHK = ("h/lk_checked.cpp", "", "inst")
bin_("locks", *LOCKCORE, SPIN, ALT, FAIR, CHK)
PRSYNC = ("h/pr_sync.cpp", "", "inst")
bin_("sync", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/sync.cpp", "", "plain"), RT, PRSYNC)
bin_("free", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/free.cpp", "", "plain"), RT, PRSYNC, ("h/pr_free.cpp", "", "inst"), ("h/pr_std.cpp", "", "inst"), ("h/pr_crowd.cpp", "", "plain"), SPIN, ALT, FAIR, CHK)
def _native(mode):
    flag = {"tsan": "-fsanitize=thread", "asan": "-fsanitize=address,undefined"}[mode]
    bin_("rfree_" + mode, ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/rfree.cpp", "", "plain"),
         *[("h/%s.cpp" % f, "", mode) for f in ("pr_sync", "pr_free", "pr_std", "lk_spin", "lk_alt", "lk_fair", "lk_checked")], link=flag)
_native("tsan"); _native("asan")
bin_("scale", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/scale.cpp", "", "plain"),
     *[("h/%s.cpp" % f, "", "ubsan") for f in ("pr_sync", "lk_spin", "lk_alt", "lk_fair", "lk_checked")], link="-fsanitize=undefined")
bin_("wrappers", ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/wrappers.cpp", "", "asan"), link="-fsanitize=address,undefined")
BOC = [("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/backoff.cpp", "", "plain"), RT]
bin_("backoff", *BOC, ("h/lk_backoff.cpp", "", "inst"))
bin_("statics", ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/statics_tu.cpp", "-DTU=0", "asan"), ("real/statics.cpp", "", "asan"), *[("real/statics_tu.cpp", "-DTU=%d" % i, "asan") for i in (1, 2)], link="-fsanitize=address,undefined")
# configuration variants
bin_("locks_abort", *LOCKCORE, ("h/lk_checked.cpp", "-DYAMC_CHECKED_CALL_ABORT=1", "inst"))
bin_("locks_nodet", *LOCKCORE, ("h/lk_checked.cpp", "-DNODETECT", "inst"))
for _n, _f in (("default", ""), ("w_task", "-DYAMC_RWLOCK_SCHED_DEFAULT=yamc::rwlock::WriterPrefer -DEXP_RW=WRITER -DYAMC_RWLOCK_FAIRNESS_DEFAULT=yamc::rwlock::TaskFairness -DEXP_FAIR=TASK"),
               ("r_phase", "-DYAMC_RWLOCK_SCHED_DEFAULT=yamc::rwlock::ReaderPrefer -DEXP_RW=READER -DYAMC_RWLOCK_FAIRNESS_DEFAULT=yamc::rwlock::PhaseFairness -DEXP_FAIR=PHASE")):
    bin_("cfg_" + _n, *LOCKCORE, ("h/lk_cfg.cpp", _f, "inst"))
for _n, _f in (("yield", "-DYAMC_BACKOFF_SPIN_DEFAULT=yamc::backoff::yield -DEXPECT_DEFAULT='\"yield\"'"), ("busy", "-DYAMC_BACKOFF_SPIN_DEFAULT=yamc::backoff::busy -DEXPECT_DEFAULT='\"busy\"'"),
               ("exp", "-DYAMC_BACKOFF_SPIN_DEFAULT='yamc::backoff::exponential<123>' -DEXPECT_DEFAULT='\"exp:123\"'"), ("init", "-DYAMC_BACKOFF_EXPONENTIAL_INITCOUNT=50 -DEXPECT_DEFAULT='\"exp:50\"' -DEXPECT_INIT='\"exp:50\"'")):
    bin_("backoff_" + _n, *BOC, ("h/lk_backoff.cpp", _f, "inst"))
bin_("locks_native", *LOCKCORE, ("h/lk_native.cpp", "", "inst"))
bin_("native", ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/native.cpp", "", "native"))

# build variants: assertions off and a newer standard; another compiler and an older standard; the library's own diagnostics on
_ND = "-DNDEBUG -O2 -std=c++20"; _DG = "-DYAMC_CHECK_VERBOSE=1 -DYAMC_DEBUG_TRACING=2 -include %s/h/diag.h" % __import__("os").path.dirname(__import__("os").path.abspath(__file__))
_LK = ("lk_spin", "lk_alt", "lk_fair", "lk_checked")
bin_("locks_nd", *LOCKCORE, *[("h/%s.cpp" % f, _ND, "inst") for f in _LK])
bin_("locks_clang", *LOCKCORE, *[("h/%s.cpp" % f, "", "clang") for f in _LK])
bin_("locks_diag", *LOCKCORE, *[("h/%s.cpp" % f, _DG, "inst") for f in _LK[2:]])
_SY = [("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/sync.cpp", "", "plain"), RT]
bin_("sync_nd", *_SY, ("h/pr_sync.cpp", _ND, "inst"))
bin_("sync_clang", *_SY, ("h/pr_sync.cpp", "", "clang"))
bin_("free_nd", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/free.cpp", "", "plain"), RT, ("h/pr_crowd.cpp", "", "plain"), *[("h/%s.cpp" % f, _ND, "inst") for f in ("pr_sync", "pr_free", "pr_std") + _LK])
bin_("locks_native_nd", *LOCKCORE, ("h/lk_native.cpp", _ND, "inst"))
bin_("locks_abort_nd", *LOCKCORE, ("h/lk_checked.cpp", _ND + " -DYAMC_CHECKED_CALL_ABORT=1", "inst"))
bin_("wrappers_nd", ("h/common.cpp", "", "plain"), ("real/stub.cpp", "", "plain"), ("real/wrappers.cpp", _ND, "asan"), link="-fsanitize=address,undefined")
bin_("backoff_nd", *BOC, ("h/lk_backoff.cpp", _ND, "inst"))

SHIM = ("shim/platform.cpp", "-I/verif/shim".replace("/verif", __import__("os").path.dirname(__import__("os").path.abspath(__file__))), "plain")
_SI = SHIM[1]
bin_("locks_plat", *LOCKCORE, SHIM, ("h/lk_plat.cpp", _SI, "inst"))
bin_("sync_plat", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/sync.cpp", "", "plain"), RT, SHIM, ("h/sem_plat.cpp", _SI, "inst"))
bin_("plat", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/plat.cpp", _SI, "plain"), RT, SHIM, ("h/lk_plat.cpp", _SI, "inst"), ("h/sem_plat.cpp", _SI, "inst"))

# accurate timeouts off: timed calls may end a tick early, everything else stays
_NA = _SI + " -DYAMC_WIN_ACCURATE_TIMEOUT=0"
bin_("plat_na", ("h/ops.cpp", "", "plain"), ("h/common.cpp", "", "plain"), ("h/plat.cpp", _SI + " -DWIN_EARLY=1", "plain"), RT, SHIM, ("h/lk_plat.cpp", _NA, "inst"), ("h/sem_plat.cpp", _NA, "inst"))
bin_("locks_plat_na", *LOCKCORE, SHIM, ("h/lk_plat.cpp", _NA, "inst"))
bin_("sync_plat_na", *_SY, SHIM, ("h/sem_plat.cpp", _NA, "inst"))
bin_("locks_plat_nd", *LOCKCORE, SHIM, ("h/lk_plat.cpp", _SI + " " + _ND, "inst"))
bin_("sync_plat_nd", *_SY, SHIM, ("h/sem_plat.cpp", _SI + " " + _ND, "inst"))
bin_("sync_cfg", *_SY, ("h/pr_sync.cpp", "-DYAMC_SEMAPHORE_LEAST_MAX_VALUE=7 -DEXP_SEMMAX=7", "inst"))

# one program in two separately compiled parts: in one executable, and in two shared libraries
_HDR = [("h/allhdr.cpp", _SI + " -DUNIT=%d" % u, "plain") for u in (0, 1)]
def _unit(u, files, fl): return [("h/%s.cpp" % f, "%s -DUNIT=%d" % (fl, u), "inst") for f in files]
_PIC = "-O2 -fPIC -fvisibility-inlines-hidden"
bin_("locks_units", *LOCKCORE, *_HDR, SHIM, *_unit(0, _LK, "-O2"), *_unit(1, _LK, "-O2"))
bin_("sync_units", *_SY, *_unit(0, ["pr_sync"], "-O2"), *_unit(1, ["pr_sync"], "-O2"))
bin_("locks_libs", *LOCKCORE, libs=[_unit(u, _LK, _PIC) for u in (0, 1)])
bin_("sync_libs", *_SY, libs=[_unit(u, ["pr_sync"], _PIC) for u in (0, 1)])

class Job:
    def __init__(self, bin, args, quick, thorough, kinds=None, shards=8, only_types=None, control=None):
        self.bin, self.args, self.quick, self.thorough, self.kinds, self.shards, self.control = bin, args, quick, thorough, kinds, shards, control

# kinds that break any promise made about the operations of the workload itself
FATAL = {"crash", "abort", "assert", "pthread-misuse", "hang"}
QS = 25      # scale of the quick tier
TS = 900     # scale of the thorough tier (bounded by the time budget)
def J(types, profile, n, **k):
    a = "--types=%s --profile=%s" % (types, profile)
    if "only" in k: a += " --only=" + k.pop("only")
    return Job("locks", a, n * QS, n * TS, **k)
def S(types, n, extra="", **k):
    return Job("sync", ("--types=%s %s" % (types, extra)).strip(), n * QS, n * TS, **k)
def F(progs, n, types="all", only="", **k):
    return Job("free", "--progs=%s --types=%s" % (progs, types) + (" --only=" + only if only else ""), n * QS, n * TS, **k)
def N(mode, progs, n, **k): return Job("rfree_" + mode, "--progs=" + progs, n * QS, n * TS, **k)
def W(what, n, **k): return Job("wrappers", "--progs=" + what, n * QS, n * TS, **k)
def L(progs, n, t=None, types="all", extra="", **k): return Job("scale", "--progs=%s --types=%s%s" % (progs, types, extra), n, t if t is not None else n * 40, **k)
UB = {"leak", "sanitizer", "uaf", "oob"}

GRANT = {"missing-grant", "stuck", "livelock"}
SEMK = {"sem-max", "conservation", "lost-permit", "release-blocked", "try-blocked", "try-false", "false-fail", "inconsistent", "unexpected-throw", "missing-grant", "stuck", "livelock"}
SYNCREL = {"missing-release", "early-release", "arrive-blocked", "inconsistent", "unexpected-throw", "stuck", "livelock"}
TASKT = "fair::shared_mutex<Task>,fair::shared_timed_mutex<Task>"
PHASET = "fair::shared_mutex<Phase>,fair::shared_timed_mutex<Phase>,fair::shared_mutex,fair::shared_timed_mutex"
PROPS = {
 "C01": dict(kinds={"exclusion", "exclusion-order", "inconsistent"} | FATAL, jobs=[F("line", 50), 
    J("all", "base", 3000), J("all", "contend", 3000), J("all", "timed", 3000, only="timed"), J("all", "try", 1500), J("all", "rec", 1000, only="recursive"), F("mutex", 1500), L("cycles", 600)]),
 "C02": dict(kinds={"rw-exclusion", "exclusion", "exclusion-order", "inconsistent"} | FATAL, jobs=[F("line", 50, only="shared"), 
    J("all", "base", 4000, only="shared"), J("all", "contend", 3000, only="shared"), J("all", "timed,ordertimed", 4000, only="shared,timed"), J("all", "try", 1500, only="shared"), F("mutex", 1500, only="shared"), L("readers,cycles", 800, kinds={"rw-exclusion", "exclusion", "false-fail"} | FATAL)]),
 "C03": dict(kinds={"race"} | FATAL, jobs=[
    J("all", "base", 3000), J("all", "contend", 2000), J("all", "ordertimed", 1500, only="timed"), J("checked", "dead,misuse", 1000), F("mutex", 2000), S("all", 2000), F("sem,latch,barrier", 3000), F("scoped,phil,indep", 1000), N("tsan", "all", 2000)]),
 "C04": dict(kinds={"try-blocked", "try-false", "false-fail"} | FATAL, jobs=[F("line", 60), 
    J("all", "try", 6000), J("all", "base", 3000), J("all", "ordertimed", 3000, only="timed"), J("all", "contend", 2000), L("readers,cycles,objects", 900)]),
 "C05": dict(kinds={"timeout-early", "timeout-late", "timed-false", "false-fail", "unexpected-throw"} | FATAL, jobs=[
    J("all", "timed", 8000, only="timed"), J("all", "ordertimed", 4000, only="timed"), J("all", "base", 2000, only="timed")]),
 "C06": dict(kinds={"unlock-blocked"} | GRANT | FATAL, jobs=[F("line", 60), 
    J("all", "base", 3000), J("all", "contend", 4000), J("all", "ordertimed", 4000, only="timed"), J("all", "order", 2000), J("checked", "dead", 1500), F("mutex", 2000), L("cycles,readers,rec", 600)]),
 "C07": dict(kinds={"recursion", "exclusion", "exclusion-order", "inconsistent"} | GRANT | FATAL, jobs=[
    J("all", "rec", 8000, only="recursive"), J("all", "base,contend", 3000, only="recursive"), F("mutex", 1500, only="recursive"), L("rec", 900)]),
 "C08": dict(kinds={"policy"} | GRANT | FATAL, jobs=[F("line", 60, types="alt,checked", only="shared"), 
    J("alt,checked", "order", 4000, only="shared"), J("alt,checked", "ordertimed", 5000, only="shared,timed"), J("alt,checked", "base,try", 3000, only="shared"), J("checked", "dead", 1500, only="shared")]),
 "C09": dict(kinds={"policy"} | GRANT | FATAL, jobs=[F("line", 100, types="fair", only="excl"), L("cycles", 300, types="fair"), 
    J("fair", "order", 5000, only="excl"), J("fair", "ordertimed", 6000, only="excl,timed"), J("fair", "contend,try", 3000, only="excl")]),
 "C10": dict(kinds={"policy"} | GRANT | FATAL, jobs=[F("line", 100, types=TASKT), L("cycles,readers", 200, types="fair"), 
    J(TASKT, "order", 6000), J("fair::shared_timed_mutex<Task>", "ordertimed", 7000), J(TASKT, "contend,try,base", 4000)]),
 "C11": dict(kinds={"policy"} | GRANT | FATAL, jobs=[F("line", 100, types=PHASET), L("cycles,readers", 200, types="fair"), 
    J(PHASET, "order", 6000), J("fair::shared_timed_mutex<Phase>,fair::shared_timed_mutex", "ordertimed", 7000), J(PHASET, "contend,try,base", 4000)]),
 "C12": dict(kinds={"misuse-undetected", "misuse-wrongcode", "unexpected-throw", "inconsistent", "exclusion", "missing-grant"} | FATAL, jobs=[
    J("checked", "misuse", 8000), J("checked", "nomisuse", 3000), Job("locks_nodet", "--fork --types=checked --profile=misuse,nomisuse", 400 * QS, 500 * TS), L("readers,rec", 500, types="checked")]),
 "C13": dict(kinds={"abort-missing", "abort-unwarranted", "missed-deadlock", "misuse-undetected", "unexpected-throw", "missing-grant", "stuck", "livelock"} | FATAL, jobs=[
    Job("locks_abort", "--abort --types=checked --profile=abmisuse", 800 * QS, 1000 * TS), Job("locks_abort", "--abort --types=checked --profile=nomisuse,misuse", 400 * QS, 500 * TS),
    Job("locks_abort", "--abort --types=checked --profile=dead,deadsound", 600 * QS, 800 * TS)]),
 "C14": dict(kinds={"missed-deadlock", "deadlock-inconsistent"} | GRANT | FATAL, jobs=[F("ring", 400, types="checked"), 
    J("checked", "dead", 10000), J("checked", "deadsound", 3000), F("phil", 1500, types="checked"), Job("locks_libs", "--types=checked --profile=dead", 500 * QS, 800 * TS)]),
 "C15": dict(kinds={"false-deadlock", "deadlock-inconsistent", "unexpected-throw"} | FATAL, jobs=[F("ring", 400, types="checked"), 
    J("checked", "deadsound", 8000), J("checked", "dead", 4000), F("phil,mutex", 1500, types="checked"), J("checked", "base,contend,ordertimed", 2000), L("objects", 500, types="checked")]),
 "C16": dict(kinds=SEMK | FATAL, jobs=[F("crowd-sem", 80), S("gsem,psem", 6000), S("gsem,psem", 3000, "--timed"), F("sem", 2000), L("sem", 2000)]),
 "C17": dict(kinds={"timeout-early", "timeout-late", "timed-false", "false-fail", "unexpected-throw", "conservation", "lost-permit"} | FATAL, jobs=[S("gsem,psem", 8000, "--timed"), S("psem", 3000), F("sem", 1000)]),
 "C18": dict(kinds=SYNCREL | {"try-wait", "try-blocked"} | FATAL, jobs=[F("crowd-latch", 400), S("latch", 8000), F("latch,life-latch", 3000), L("latch", 40000)]),
 "C19": dict(kinds=SYNCREL | {"completion-count", "early-completion"} | FATAL, jobs=[F("crowd-barrier", 400), S("barrier", 8000), F("barrier", 4000), L("barrier,phases", 700), L("phases", 0, 2, extra=" --mult=31000", shards=2)]),
 "C20": dict(kinds=SYNCREL | {"completion-count", "early-completion"} | FATAL, jobs=[F("crowd-barrier", 400), S("barrier", 8000), F("barrier-drop", 4000), L("barrier", 700)]),
 "C21": dict(kinds={"wrapper-calls", "wrapper-state", "wrapper-error"} | UB | FATAL, jobs=[W("shared_lock", 12000)]),
 "C22": dict(kinds={"scoped", "exclusion", "stuck", "livelock", "unexpected-throw"} | FATAL, jobs=[F("scoped", 3000), W("scoped_lock", 4000, kinds={"scoped"} | UB | FATAL)]),
 "C23": dict(kinds={"uaf", "unexpected-throw", "inconsistent"} | FATAL, jobs=[F("life-mutex", 3000), F("life-sem,life-latch,life-barrier", 4000), N("asan", "life-mutex,life-sem,life-latch,life-barrier", 600, kinds=UB | FATAL)]),
 "C24": dict(kinds=UB | FATAL, jobs=[
    J("all", "base,contend,try", 1500), J("all", "ordertimed", 1500, only="timed"), J("all", "rec", 1000, only="recursive"), J("checked", "dead", 1000), S("all", 1500), F("all", 2000), N("asan", "all", 1500), L("all", 900)]),
 "C25": dict(kinds={"native-handle", "recursion", "rw-exclusion", "exclusion", "exclusion-order", "inconsistent", "unexpected-throw", "unlock-blocked", "try-blocked", "try-false", "false-fail", "race"} | GRANT | FATAL, jobs=[
    Job("native", "", 3000 * 8, 200 * 1000), Job("locks_native", "--types=native --profile=base,contend,try", 2000 * QS, 2500 * TS), Job("locks_native", "--types=native --profile=timed,ordertimed", 1500 * QS, 1500 * TS, ),
    Job("locks_native", "--types=native --profile=rec --only=recursive", 800 * QS, 800 * TS)]),
 "C26": dict(kinds={"backoff"} | FATAL, jobs=[Job("backoff", "", 1500 * 8, 60000 * 8)]),
 "C27": dict(kinds={"independence", "exclusion", "rw-exclusion", "unexpected-throw"} | FATAL, jobs=[F("indep", 3000), L("objects", 2000)]),
 "C28": dict(kinds={"policy", "backoff", "abort-missing", "abort-unwarranted", "missed-deadlock", "false-deadlock", "misuse-undetected", "misuse-wrongcode", "unexpected-throw", "deadlock-inconsistent"} | SEMK | GRANT | FATAL, jobs=[
    Job("sync_cfg", "--types=gsem", 500 * QS, 500 * TS), Job("sync", "--types=gsem,psem", 200 * QS, 200 * TS), *[Job("cfg_" + n, "--types=%s --profile=%s" % (t, p), 1500 * QS, 1500 * TS) for n in ("default", "w_task", "r_phase") for t, p in (("cfg", "order,base"), ("cfgf", "order,base"))],
    *[Job(n, "--only=::mutex/,exponential\\<\\>", 600, 60000) for n in ("backoff", "backoff_yield", "backoff_busy", "backoff_exp", "backoff_init")],
    Job("locks_nodet", "--fork --types=checked --profile=dead,deadsound", 400 * QS, 500 * TS), Job("locks_nodet", "--fork --types=checked --profile=misuse,nomisuse,base", 1000 * QS, 1200 * TS),
    Job("locks_abort", "--abort --types=checked --profile=abmisuse,nomisuse,dead", 300 * QS, 400 * TS), Job("locks_diag", "--types=checked,fair --profile=base,order,nomisuse", 400 * QS, 500 * TS)]),
 "C29": dict(kinds={"platform-error", "platform-leak", "exclusion", "rw-exclusion", "exclusion-order", "recursion", "inconsistent", "unexpected-throw", "unlock-blocked", "try-blocked", "try-false", "false-fail", "timeout-early", "timeout-late", "timed-false", "race"} | SEMK | GRANT | FATAL, jobs=[
    Job("locks_plat", "--types=plat,plathandle --profile=base,contend,try", 2500 * QS, 2500 * TS), Job("locks_plat", "--types=plat,plathandle --profile=timed,ordertimed --only=timed", 1500 * QS, 1500 * TS),
    Job("locks_plat", "--types=plat,plathandle --profile=rec --only=recursive", 800 * QS, 800 * TS),
    Job("sync_plat", "--types=wsem,gcdsem", 2000 * QS, 2000 * TS), Job("sync_plat", "--types=wsem,gcdsem --timed", 2500 * QS, 2500 * TS), Job("plat", "", 8000 * QS, 8000 * TS),
    Job("locks_plat_na", "--types=plat --profile=base,timed,ordertimed --only=timed", 400 * QS, 600 * TS), Job("sync_plat_na", "--types=wsem --timed", 400 * QS, 600 * TS), Job("plat_na", "", 2000 * QS, 2000 * TS)]),
 "C30": dict(kinds={"exclusion", "rw-exclusion", "exclusion-order", "recursion", "inconsistent", "unexpected-throw", "false-deadlock", "missed-deadlock", "deadlock-inconsistent", "unlock-blocked", "try-blocked", "try-false", "false-fail", "timed-false", "policy", "race"} | GRANT | UB | FATAL, jobs=[
    J("checked", "oom", 10000), J("checked", "oom", 4000, only="shared"), Job("locks_nodet", "--types=checked --profile=oom", 1500 * QS, 1500 * TS), J("all", "oom", 1000)]),
 "C34": dict(kinds={"busy-wait", "livelock"} | FATAL, jobs=[
    J("all", "base,contend,order", 4000, only="nospin"), J("all", "timed,ordertimed", 6000, only="timed"), J("checked", "dead", 1000), S("all", 3000), S("gsem,psem", 3000, "--timed")]),
 "C33": dict(kinds={"scoped", "exclusion", "rw-exclusion", "exclusion-order", "inconsistent", "unexpected-throw", "stuck", "livelock", "race"} | FATAL, jobs=[
    F("cvany,stdlock", 5000), F("cvany,stdlock", 2500, only="shared"), N("tsan", "cvany,stdlock", 800)]),
 "C32": dict(kinds={"statics"} | UB | FATAL, jobs=[Job("statics", "", 2000, 60000)]),
}

ALLK = set().union(*[v["kinds"] for v in PROPS.values()])
PROPS["C31"] = dict(kinds=ALLK, jobs=[Job("locks_" + v, "--types=all --profile=" + p, n * QS, n * TS) for v in ("nd", "clang") for p, n in (("base,contend,try", 1500), ("timed,ordertimed", 1500), ("order", 1000), ("rec", 500))]
    + [Job("locks_" + v, "--types=checked --profile=dead,deadsound,misuse", 1200 * QS, 1200 * TS) for v in ("nd", "clang")]
    + [Job("sync_" + v, "--types=all" + x, 1000 * QS, 1000 * TS) for v in ("nd", "clang") for x in ("", " --timed")]
    + [Job("locks_diag", "--types=fair --profile=base,order,ordertimed,contend,try", 1500 * QS, 1500 * TS), Job("locks_diag", "--types=checked --profile=base,dead,deadsound,misuse,nomisuse,ordertimed", 1500 * QS, 1500 * TS)]
    + [Job("locks_native_nd", "--types=native --profile=base,contend", 800 * QS, 800 * TS), Job("locks_native_nd", "--types=native --profile=timed --only=timed", 500 * QS, 500 * TS),
       Job("locks_plat_nd", "--types=plat,plathandle --profile=base,contend,try", 600 * QS, 800 * TS, kinds=ALLK - {"busy-wait"}), Job("sync_plat_nd", "--types=wsem,gcdsem --timed", 600 * QS, 800 * TS, kinds=ALLK - {"busy-wait"}),
       Job("free_nd", "--progs=scoped,cvany,stdlock,phil,indep", 600 * QS, 800 * TS), Job("free_nd", "--progs=life-mutex,life-sem,life-latch,life-barrier", 600 * QS, 800 * TS),
       Job("wrappers_nd", "--progs=shared_lock", 2000 * QS, 2000 * TS), Job("wrappers_nd", "--progs=scoped_lock", 1000 * QS, 1000 * TS),
       Job("backoff_nd", "", 300 * 8, 10000 * 8), Job("locks_abort_nd", "--abort --types=checked --profile=abmisuse,nomisuse,dead", 200 * QS, 300 * TS)])
PROPS["C35"] = dict(kinds=ALLK - {"busy-wait"}, jobs=[
    J("all", "clk", 6000, only="timed"), J("fair", "clk", 4000, only="timed"), S("gsem,psem", 1500, "--clk"),
    Job("locks_plat", "--types=plat,plathandle --profile=clk --only=timed", 1500 * QS, 1500 * TS), Job("sync_plat", "--types=wsem,gcdsem --clk", 1000 * QS, 1000 * TS), Job("locks_native", "--types=native --profile=clk --only=timed", 800 * QS, 800 * TS)])

PROPS["C36"] = dict(kinds=ALLK | {"odr"}, jobs=[j for v in ("units", "libs") for j in (
    Job("locks_" + v, "--types=checked --profile=dead,deadsound", 2500 * QS, 2500 * TS), Job("locks_" + v, "--types=checked --profile=misuse,nomisuse,base,rec", 1200 * QS, 1200 * TS),
    Job("locks_" + v, "--types=all --profile=base,contend,order", 1200 * QS, 1200 * TS), Job("locks_" + v, "--types=all --profile=timed,ordertimed --only=timed", 1000 * QS, 1000 * TS),
    Job("sync_" + v, "--types=all", 800 * QS, 800 * TS), Job("sync_" + v, "--types=all --timed", 500 * QS, 500 * TS))])

ASSUME = ["Controlled executions are sequentially consistent interleavings at synchronisation points, atomics and (sampled) plain accesses; weaker memory behaviour is judged by the happens-before race detector instead.",
          "Virtual time: clocks move only when the driver moves them, plus a nanosecond per expired wait.",
          "The pthread/semaphore primitives underneath are modelled (spurious wakeups, arbitrary wakeup choice, EINTR), not executed."]
RULE = ("An evaluation is one execution of a generated multi-threaded program under one seeded schedule. It is distinct when the hash of its context-switch sequence "
        "(who was switched to at which step) together with the program's outcome differs from all others of the run; every program performs at least one contended or waiting operation sequence by construction.")
