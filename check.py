#!/usr/bin/env python3
"""Runs the monitors of one property (see DESIGN.md).

  check.py C01 [--tier quick|thorough] [--seed N]     decide a property
  check.py --setup                                    build everything once
  check.py --replay FILE                              re-run one recorded violation
exit 0 held / 1 VIOLATION / 3 the check itself could not run
"""
import hashlib, json, os, re, shlex, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import jobs as J
INC = os.environ.get("VERIF_INC", "/repo/include")
NCPU = os.cpu_count() or 4
T0 = time.time()

def die(m):
    print("CHECK-ERROR: " + m); sys.stdout.flush(); os._exit(3)

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

# ------------------------------------------------------------------ build
FLAGS = {
  "plain": "g++ -std=c++17 -O2 -g -Wall -Wextra",
  "inst": "g++ -std=c++17 -O1 -g -fsanitize=thread -Wno-tsan -Wno-unused-function",
  "clang": "clang++ -std=c++14 -O2 -g -DNDEBUG -fsanitize=thread",
  "native": "g++ -std=c++17 -O2 -g",
  "tsan": "g++ -std=c++17 -O1 -g -fsanitize=thread -Wno-tsan",
  "ubsan": "g++ -std=c++17 -O2 -g -fsanitize=undefined -fno-sanitize-recover=all",
  "asan": "g++ -std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
}
def tree_hash():
    h = hashlib.sha256()
    for base in (INC, ROOT + "/rt", ROOT + "/h", ROOT + "/real", ROOT + "/shim"):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]
BUILD = None
def build(bins):
    global BUILD
    BUILD = os.path.join(ROOT, "build", tree_hash())
    os.makedirs(BUILD, exist_ok=True)
    objs, libs, links = {}, [], []
    for b in bins:
        spec = J.BINS[b]
        out = os.path.join(BUILD, b)
        def compile_(tus):
            os_ = []
            for src, fl, mode in tus:
                key = hashlib.sha256((src + fl + mode).encode()).hexdigest()[:10]
                o = os.path.join(BUILD, os.path.basename(src).replace(".cpp", "") + "." + key + ".o")
                objs[o] = "%s -I%s -I%s %s -c %s/%s -o %s" % (FLAGS[mode], INC, ROOT + "/h", fl, ROOT, src, o)
                os_.append(o)
            return " ".join(os_)
        so = []
        for i, tus in enumerate(spec["libs"]):
            so.append("%s.lib%d.so" % (out, i))
            libs.append((so[-1], "g++ -shared %s -o %s -pthread" % (compile_(tus), so[-1])))
        links.append((out, "g++ %s %s -o %s -pthread -ldl -no-pie %s%s" % (compile_(spec["tus"]), " ".join(["-Wl,--no-as-needed"] + so if so else []), out, spec["link"], " -rdynamic -Wl,-rpath,%s" % BUILD if so else "")))
    def one(o, cmd):
        if os.path.exists(o): return None
        tmp = o + ".tmp%d" % os.getpid()
        r = sh(cmd[: cmd.rindex("-o ") + 3] + tmp + cmd[cmd.rindex("-o ") + 3 + len(o):])
        if r.returncode: return "%s\n%s" % (cmd, r.stdout[-3000:])
        os.rename(tmp, o)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda kv: one(*kv), objs.items()) if e]
        if errs: die("build failed\n" + errs[0])
        def lk(x):
            out, cmd = x
            if os.path.exists(out): return None
            tmp = out + ".tmp%d" % os.getpid()
            cmd = cmd.replace("-o %s " % out, "-o %s " % tmp)
            r = sh(cmd)
            if r.returncode and "multiple definition of" in r.stdout:   # judged by C36; whatever else the program does is judged all the same
                open(out + ".odr", "w").write(r.stdout[-3000:])
                r = sh(cmd + " -Wl,-z,muldefs")
            if r.returncode: return cmd + "\n" + r.stdout[-3000:]
            os.rename(tmp, out)
        errs = [e for e in ex.map(lk, libs) if e] or [e for e in ex.map(lk, links) if e]
        if errs: die("link failed\n" + errs[0])

# ------------------------------------------------------------------ known findings
def load_known():
    k = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m: k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k

# ------------------------------------------------------------------ running
class Agg:
    def __init__(s):
        s.stat = {}; s.samples = []; s.scheds = set(); s.states = set(); s.viol = []; s.foreign = {}; s.notes = []; s.evals = 0; s.lock = threading.Lock()

def parse_report(out):
    m = re.search(r"VS-VIOLATION kind=(\S+)\n(.*?)(?:VS-END|\Z)", out, re.S)
    if not m: return None
    e = re.search(r"^exec (\d+)$", m.group(2), re.M)
    return dict(kind=m.group(1), text=m.group(2), exec=int(e.group(1)) if e else None)

def run_proc(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, out.decode("utf8", "replace"), True

SAN = re.compile(r"(WARNING: ThreadSanitizer: ([a-z\- ]+)|ERROR: AddressSanitizer: ([a-zA-Z\- ]+)|ERROR: LeakSanitizer|runtime error: (.*))")

def shard(prop, job, jobno, k, nsh, total, seed, tier, agg, deadline, stop):
    """one shard of one job; relaunched after an observation that belongs to another property"""
    per = total // nsh + (1 if k < total % nsh else 0)
    start, relaunch = 0, 0
    kinds = job.kinds if job.kinds is not None else J.PROPS[prop]["kinds"]
    while start < per and not stop.is_set():
        left = deadline - time.time()
        if left < 1: agg.notes.append("time budget reached"); return
        hf = os.path.join(BUILD, "hash.%s.%d.%d.%d" % (prop, jobno, k, os.getpid()))
        base = [os.path.join(BUILD, job.bin)] + shlex.split(job.args) + ["--seed=%d" % seed, "--shard=%d" % k, "--tag=%s.%d" % (prop, jobno)]
        cmd = base + ["--start=%d" % start, "--execs=%d" % per, "--cpu=%d" % k, "--hashes=" + hf, "--maxtime=%d" % int(left)]
        env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1", ASAN_OPTIONS="detect_leaks=1:exitcode=67", UBSAN_OPTIONS="print_stacktrace=1")
        rc, out, hung = run_proc(cmd, left + (60 if tier == "quick" else 1200), env)
        rep = parse_report(out)
        if rep is None and SAN.search(out) and rc != 0:
            m = SAN.search(out)
            kd = "race" if "data race" in m.group(0) else "sanitizer"
            rep = dict(kind=kd, text=out[max(0, m.start() - 200): m.start() + 4000], exec=None)
        if rep is None and (hung or "SHARD-DONE" not in out):
            rep = dict(kind="hang" if hung else "crash" if rc < 0 else "error", text=out[-2000:] + "\nexit status %d" % rc, exec=None)
        if rep is None:
            with agg.lock:
                for l in out.splitlines():
                    m = re.match(r"STAT (.*) (\d+)$", l)
                    if m: agg.stat[m.group(1)] = agg.stat.get(m.group(1), 0) + int(m.group(2))
                    elif l.startswith("SAMPLE ") and len(agg.samples) < 6: agg.samples.append(l[7:900])
                if os.path.exists(hf):
                    b = open(hf, "rb").read(); os.unlink(hf)
                    n = struct.unpack_from("<Q", b, 0)[0]
                    agg.scheds.update((jobno, x) for x in struct.unpack_from("<%dQ" % n, b, 8))
                    m = struct.unpack_from("<Q", b, 8 + 8 * n)[0]
                    agg.states.update(struct.unpack_from("<%dQ" % m, b, 16 + 8 * n))
            return
        rep.update(cmd=base, jobno=jobno, shard=k)
        if rep["kind"] == "error": agg.viol.append(("error", rep)); stop.set(); return
        if rep["kind"] in kinds:
            agg.viol.append(("v", rep)); stop.set(); return
        with agg.lock: agg.foreign.setdefault(rep["kind"], []).append(rep)
        relaunch += 1
        if rep["exec"] is None or relaunch > 25: return
        start = rep["exec"] + 1

def run_prop(prop, tier, seed):
    spec = J.PROPS[prop]
    jobs = [j for j in spec["jobs"] if (j.quick if tier == "quick" else j.thorough) > 0]
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    build(sorted({j.bin for j in jobs} | {j.control.bin for j in jobs if j.control}))
    deadline = time.time() + budget
    agg = Agg()
    if "odr" in spec["kinds"]:
        for b in sorted({j.bin for j in jobs}):
            odr = os.path.join(BUILD, b + ".odr")
            if os.path.exists(odr):
                agg.viol.append(("v", dict(kind="odr", text="the headers, included by two translation units, do not make one program:\n" + open(odr).read(), exec=None, cmd=[os.path.join(BUILD, b)], jobno=0, shard=0)))
                break
    stop = threading.Event()
    def submit(ex, js, ag, st, until):
        fs = []
        for i, j in js:
            total = j.quick if tier == "quick" else j.thorough
            n = min(j.shards, total)
            for k in range(n): fs.append(ex.submit(shard, prop, j, i, k, n, total, seed, tier, ag, until, st))
        return fs
    with ThreadPoolExecutor(NCPU) as ex:
        if tier == "quick":
            for f in submit(ex, list(enumerate(jobs)), agg, stop, deadline): f.result()
        else:   # every job gets its share of the time
            for i, j in enumerate(jobs):
                now = time.time()
                for f in submit(ex, [(i, j)], agg, stop, now + max(0, deadline - now) / (len(jobs) - i)): f.result()
    errs = [r for t, r in agg.viol if t == "error"]
    vs = [r for t, r in agg.viol if t == "v"]
    if errs and not vs: die("harness failed: %s\n%s" % (" ".join(errs[0]["cmd"]), errs[0]["text"]))
    known = load_known()
    fresh, hit = [], []
    for r in vs:
        (hit if any(k[0] == prop and k[1].search(r["kind"] + ":" + r["text"]) for k in known) else fresh).append(r)
    return spec, jobs, agg, fresh, hit

def main(argv):
    if "--setup" in argv:
        build(sorted(J.BINS)); print("built", len(J.BINS), "binaries in %.1fs" % (time.time() - T0)); return 0
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        build([os.path.basename(r["cmd"][0])])
        cmd = [os.path.join(BUILD, os.path.basename(r["cmd"][0]))] + r["cmd"][1:]
        if r["exec"] is not None: cmd += ["--start=%d" % r["exec"], "--execs=%d" % (r["exec"] + 1), "--trace-at=%d" % r["exec"]]
        print(" ".join(cmd)); sys.stdout.flush()
        return subprocess.call(cmd)
    prop = argv[0]
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(argv[argv.index("--seed") + 1] if "--seed" in argv else os.environ.get("VERIF_SEED", "1"))
    if prop not in J.PROPS: die("unknown property " + prop)
    spec, jobs, agg, fresh, hit = run_prop(prop, tier, seed)
    evals = agg.stat.get("execs", 0)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - T0, 2), violations=len(fresh),
      assumptions=spec.get("assume", J.ASSUME),
      coverage=dict(evaluations=evals, distinct_nontrivial=len(agg.scheds), rule=spec.get("rule", J.RULE), samples=agg.samples or ["(none: run ended by a violation)"],
        distinct_model_states=len(agg.states), counters=dict(sorted(agg.stat.items())), jobs=["%s %s x%d" % (j.bin, j.args, j.quick if tier == "quick" else j.thorough) for j in jobs],
        foreign_observations={k: [len(v), v[0]["text"][:4000]] for k, v in agg.foreign.items()}, notes=sorted(set(agg.notes))))
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump(ev, open(ROOT + "/evidence/%s.json" % prop, "w"), indent=1)
    for k, v in agg.foreign.items():
        print("NOTE: %d observation(s) of kind '%s' belong to other properties and are not judged here; first: %s" % (len(v), k, v[0]["text"].strip().splitlines()[0] if v[0]["text"].strip() else ""))
    for r in hit: print("KNOWN-FINDING: property=%s %s" % (prop, r["text"].splitlines()[0]))
    if fresh:
        os.makedirs(ROOT + "/replays", exist_ok=True)
        for i, r in enumerate(fresh[:3]):
            rp = ROOT + "/replays/%s-%d.json" % (prop, i)
            json.dump(r, open(rp, "w"), indent=1)
            print("kind=%s\n%s" % (r["kind"], r["text"][:6000]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK %s %s: %d executions, %d distinct schedules, %d model states, %.1fs" % (prop, tier, evals, len(agg.scheds), len(agg.states), time.time() - T0))
    return 0
if __name__ == "__main__":
    r = main(sys.argv[1:]); sys.stdout.flush(); os._exit(r)
