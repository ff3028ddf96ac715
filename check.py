#!/usr/bin/env python3
"""Runtime-monitoring checks for steering_functions.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N]
  check.py PROPERTY --replay FILE
  check.py --setup

Builds the library from /repo's working tree together with the monitors (and, where a monitor needs it, the frozen
reference copy in ref/), runs the workload and judges what the monitors observed.
exit 0: held on everything observed; exit 1: VIOLATION line printed; any other exit: error of the check itself.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
os.environ.setdefault("MON_CORPUS", os.path.join(VERIF, "harness", "corpus.txt"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NW = 8
EIGEN = ["-I/usr/include/eigen3"]


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build
def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, fn in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".h", ".data", ".inc", ".ipp")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "*", "*.cpp")))
    if not s:
        raise HarnessError("no library sources found in " + REPO)
    return s


def build(variant, cxx, flags, mains, ref=True, ldflags=(), exe_name="mon", extra=()):
    """compiles library + monitors (+ reference), returns the path of the executable"""
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + H, "-I" + os.path.join(VERIF, "ref")] + EIGEN
    hh = tree_hash([os.path.join(REPO, "include"), H, os.path.join(VERIF, "ref")])
    jobs = [(f, list(flags) + os.environ.get("VERIF_XFLAGS", "").split()) for f in lib_sources()]
    jobs += [(os.path.join(H, m), list(flags)) for m in mains + ["planner_cur.cpp"]]
    if ref:
        jobs += [(f, ["-O1", "-std=c++17", "-DNDEBUG", "-w"]) for f in sorted(glob.glob(os.path.join(VERIF, "ref", "src", "*.cpp"))) + [os.path.join(H, "planner_ref.cpp")]]
    jobs += [(f, list(flags) + fl) for f, fl in extra]
    objs, todo = [], []
    for f, fl in jobs:
        key = hashlib.sha256((hh + f + cxx + " ".join(fl)).encode() + open(f, "rb").read()).hexdigest()[:24]
        o = os.path.join(out, os.path.basename(f)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append([cxx] + fl + inc + ["-c", f, "-o", o + ".tmp%d" % os.getpid()])

    def comp(c):
        r = run(c)
        if r.returncode == 0:
            os.rename(c[-1], c[-1].rsplit(".tmp", 1)[0])
        return c, r

    # largest first
    todo.sort(key=lambda c: -os.path.getsize(c[-3]))
    with cf.ThreadPoolExecutor(NW) as ex:
        for c, r in ex.map(comp, todo):
            if r.returncode:
                raise HarnessError("compilation failed: %s\n%s" % (" ".join(c), r.stdout[-4000:]))
    exe = os.path.join(out, exe_name)
    r = run([cxx] + list(flags) + objs + ["-o", exe] + list(ldflags))
    if r.returncode:
        raise HarnessError("link failed\n" + r.stdout[-4000:])
    names = {os.path.basename(o).rsplit("-", 1)[0] for o in objs}
    for o in glob.glob(os.path.join(out, "*.o")):
        if o not in objs and os.path.basename(o).rsplit("-", 1)[0] in names:
            os.remove(o)
    return exe


# ------------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


# ------------------------------------------------------------------------------------------------ running
def run_workers(exe, mon, seed, cases, outdir, env, timeout, nw=NW):
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for w in range(nw):
        o = os.path.join(outdir, "w%d.json" % w)
        if os.path.exists(o):
            os.remove(o)
        e = open(os.path.join(outdir, "w%d.err" % w), "w")
        procs.append((w, o, e.name, subprocess.Popen([exe, mon, str(seed), str(w), str(nw), str(cases), o], stdout=e, stderr=e, env=env)))
        e.close()
    t0 = time.time()
    res = []
    for w, o, e, p in procs:
        try:
            rc = p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        data = None
        if rc == 0:
            data = json.load(open(o))
        res.append((w, rc, data, open(e, errors="replace").read()))
    return res


def crash_case(err):
    m = re.search(r"(CRASH signal=\d+|HANG) case=(\d+) in: (.*)", err)
    return (m.group(1), int(m.group(2)), m.group(3)) if m else (None, None, None)


SAN = re.compile(r"(ERROR: (?:Address|Leak)Sanitizer[^\n]*|WARNING: (?:Thread|Memory)Sanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion [^\n]* failed[^\n]*)")


def san_key(err):
    m = SAN.search(err)
    if not m:
        return None, None
    t = m.group(1).strip()
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", err)
    where = next((f for f in fr if REPO in f or "steering" in f), fr[0] if fr else "")
    return re.sub(r"0x[0-9a-f]+|==\d+==|pid \d+|\d{4,}", "", t)[:160], where[:300]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts, self.worst, self.distinct, self.samples = {}, {}, set(), []
        self.events = []  # (key, strict, text, replay dict)
        self.incon = []

    def merge(self, data, part):
        for k, v in data["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in data["worst"].items():
            self.worst[k] = max(self.worst.get(k, 0), v)
        self.distinct.update(data["distinct"])
        for s in data["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        for v in data["violations"]:
            self.events.append((v["key"], v["strict"], v["text"], dict(part=part, case=v["case"])))

    def part(self, name, exe, mon, cases, env=None, timeout=840, nw=NW):
        e = dict(os.environ)
        e.update(env or {})
        out = os.path.join(BUILD, "run", self.prop, name)
        res = run_workers(exe, mon, self.seed, cases, out, e, timeout, nw)
        for w, rc, data, err in res:
            if rc == 0:
                self.merge(data, name)
                continue
            # abnormal end: sanitizer report, crash, hang, watchdog. Repeat once before believing it.
            key, where = san_key(err)
            kind, case, now = crash_case(err)
            if "ThreadSanitizer: data race" in err and os.path.join(REPO, "") in err:
                self.events.append(("sanitizer:data race", False, "%s at %s" % (key, where), dict(part=name, case=case, log=err[-6000:])))
                continue
            # what depends on the schedule gets more chances to repeat
            for _ in range(4 if name in ("threads", "tsan") else 1):
                r = run_one(exe, mon, self.seed, w, cases, nw, out, e, timeout)
                if r[0] not in (0, "timeout"):
                    break
            if r[0] == 0:
                self.incon.append("%s worker %d ended with %s once, not on repetition: %s" % (name, w, rc, err[-300:]))
                self.merge(r[1], name)
                continue
            if "unexpected memory mapping" in err or "failed to allocate" in err or "ReserveShadow" in err:
                self.incon.append("%s worker %d: sanitizer could not start: %s" % (name, w, err[-200:]))
                continue
            if r[0] == "timeout" and rc == "timeout":
                self.incon.append("%s worker %d timed out" % (name, w))
                continue
            if r[0] == -9 or r[0] == 3 or rc == 3:
                raise HarnessError("worker %d of %s ended with %s: %s" % (w, name, r[0], err[-2000:]))
            if key:
                self.events.append(("sanitizer:" + key, False, "%s at %s" % (key, where), dict(part=name, case=case, log=err[-6000:])))
            else:
                self.events.append(("abnormal:" + str(kind or rc), False, "%s in %s" % (kind or "exit %s" % rc, now or err[-300:]), dict(part=name, case=case, log=err[-3000:])))


def run_one(exe, mon, seed, w, cases, nw, outdir, env, timeout):
    o = os.path.join(outdir, "again%d.json" % w)
    try:
        r = subprocess.run([exe, mon, str(seed), str(w), str(nw), str(cases), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", None
    return r.returncode, json.load(open(o)) if r.returncode == 0 else None


# ------------------------------------------------------------------------------------------------ properties
PLAIN = ["-O2", "-std=c++17", "-DNDEBUG", "-w"]
MON_FILES = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    MON_FILES[_p] = ["mon_path.cpp"]
for _p in ("C07", "C08", "C09", "C10"):
    MON_FILES[_p] = ["mon_opt.cpp"]
MON_FILES["C14"] = ["mon_ekf.cpp"]
MON_FILES["C15"] = ["mon_prim.cpp"]
MON_FILES["C17"] = ["mon_pure.cpp"]
MON_FILES["C18"] = ["mon_turn.cpp"]
MON_FILES["C19"] = ["mon_obj.cpp"]
for _p in ("C11", "C12", "C13"):
    MON_FILES[_p] = ["mon_integ.cpp"]


def plain(prop):
    return build("plain", "g++", PLAIN, ["main.cpp"] + MON_FILES[prop], ldflags=["-lpthread"], exe_name="mon-" + prop)


ASSUME_REF = "tolerances between 1e-6 and the library's absolute resolution (1e-4) are calibrated on a frozen reference copy of the library (ref/) at the same input"

RULES = {
    "C01": "case = random configuration x queries of 14 classes (generic, grid, near-identical, aligned, 2*pi representations, goals built from CC/HC words, far, parallel, tight, coincident, circles at critical distances) x 19 planners; exact re-integration of the controls and end points of path, covariance path and interpolation vs the goal. distinct = distinct (planner, segment word) pairs observed",
    "C02": "as C01; curvature at both ends of every segment, of every sampled and interpolated state, and the turn rate observable from the poses. distinct = distinct (planner, segment word) pairs observed",
    "C03": "as C01; curvature jump at every junction, sharpness of every segment, curvature change between sampled states. distinct = distinct (planner, segment word) pairs observed",
    "C04": "as C01; first and last curvature of controls, path and interpolation vs the convention of the planner. distinct = distinct (planner, segment word) pairs observed",
    "C05": "as C01; sign of every segment, d of every state vs observed motion. distinct = distinct (planner, segment word) pairs observed",
    "C06": "as C01; distance vs sum of segment lengths vs arc length of the sampled path, lower bounds, identical states. distinct = distinct (planner, segment word) pairs observed",
    "C07": "case = Dubins query (both directions) of the 14 classes plus goals built from arc-line-arc/arc-arc-arc words with vanishing segments; length vs the minimum over an independent enumeration of all six words. distinct = distinct (direction, winning word) observed",
    "C08": "case = Reeds-Shepp query incl. goals built from the 48 words with vanishing segments; length vs an independent enumeration, witness words and Dubins. distinct = distinct segment words observed",
    "C09": "case = configuration x query x CC/HC planner; length vs frozen reference and witness paths, relations between the specialised planners, lower bounds by Dubins/Reeds-Shepp. distinct = distinct (planner, segment word) pairs observed",
    "C10": "case = configuration x query x planner x symmetry (motion, 2*pi, mirror, reversal, direction, scaling). distinct = distinct (planner, symmetry, word) triples observed",
    "C11": "case = control sequence (returned by a planner or random) x discretization; every sampled state vs the exact integral. distinct = distinct (planner, word, number of states) observed",
    "C12": "case = control sequence x t (0, 1, outside, segment borders, interior); interpolated state vs exact integral and vs the sampled path. distinct = distinct (planner, segment, kind of t) observed",
    "C13": "case = query x filter parameters x initial covariances; the whole recorded sequence of states and covariances vs an independent filter. distinct = distinct (planner, word) observed",
    "C14": "case = filter parameters x step x covariances; Jacobians vs differentiated exact motion, prediction/update vs documented formulas. distinct = distinct (model, direction, curvature/sharpness class) observed",
    "C15": "case = arguments of every primitive; results vs quadrature, long double or definition. distinct = distinct (primitive, class of arguments) observed",
    "C16": "case = configuration x 3 queries x 19 planners x all public calls x path objects and lifetimes, once under ASan+LSan+UBSan+libstdc++ assertions, once under MSan. distinct = distinct (planner, segment word) pairs executed",
    "C17": "case = random history of queries on one object, interleaved with others, memory left-overs varied, compared bitwise with fresh objects; and 4 threads on shared and own objects (plain and under ThreadSanitizer), compared bitwise with the sequential result. distinct = distinct histories / job mixes observed",
    "C19": "case = configuration x query; path objects of the 9 specialised planners vs distance and re-integrated controls (limits, end points, curvatures, intermediate configurations in driving order, structure) and predicted states vs exact motion. distinct = distinct (planner, path type) pairs and kinds of predictions observed",
    "C20": "case = random robot, filter parameters, subscriber latencies and time x 1-2 rounds of the node's main loop (under ASan+UBSan) against stand-ins of the ROS interface; every recorded message vs the steering function, an independent footprint/wheel geometry and the re-composed covariance. distinct = distinct (steering function, number of states / segments) observed",
    "C18": "case = circle x configuration x turn type; controls vs exact integration and reported length. distinct = distinct (turn, circle class, word) observed",
}
CASES = {  # (quick, thorough)
    "C01": (80000, 1000000), "C02": (80000, 1000000), "C03": (80000, 1000000), "C04": (80000, 1000000), "C05": (80000, 1000000), "C06": (80000, 1000000),
    "C07": (80000, 2000000), "C08": (80000, 2000000), "C09": (24000, 300000), "C10": (32000, 500000),
    "C11": (24000, 400000), "C12": (200000, 4000000), "C13": (20000, 400000), "C14": (1000000, 30000000), "C15": (250000, 8000000),
    "C16": (5000, 200000), "C17": (80000, 2000000), "C18": (500000, 20000000), "C19": (200000, 5000000), "C20": (800, 40000),
}


ASAN = ["-O1", "-g1", "-std=c++17", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
MSAN = ["-O1", "-g1", "-std=c++17", "-w", "-DNDEBUG", "-fno-omit-frame-pointer", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
        "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-sanitize-recover=all"]
TSAN = ["-O1", "-g1", "-std=c++17", "-w", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=thread"]


def node_exe():
    """the visualization node against stand-ins of the ROS interface; its main is renamed in the object file"""
    stub = ["-I" + os.path.join(H, "rosstub")]
    out = os.path.join(BUILD, "asan")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, "src", "steering_functions_node.cpp")
    o = os.path.join(out, "node_renamed.o")
    r = run(["g++"] + ASAN + stub + ["-I" + os.path.join(REPO, "include")] + EIGEN + ["-c", src, "-o", o])
    if r.returncode:
        raise HarnessError("compilation of the node failed\n" + r.stdout[-4000:])
    r = run(["objcopy", "--redefine-sym", "main=steering_functions_node_main", o])
    if r.returncode:
        raise HarnessError("objcopy failed\n" + r.stdout[-4000:])
    return build("asan", "g++", ASAN, ["main.cpp"], extra=[(os.path.join(H, "mon_node.cpp"), stub)], ldflags=[o], exe_name="mon-C20")


def asan_exe():
    return build("asan", "g++", ASAN, ["main.cpp", "mon_san.cpp"], exe_name="mon-C16")


def msan_exe():
    return build("msan", "clang++", MSAN, ["msan_main.cpp"], ref=False, exe_name="mon-C16m")


def tsan_exe():
    return build("tsan", "clang++", TSAN, ["main.cpp", "mon_pure.cpp"], ref=True, ldflags=["-lpthread"], exe_name="mon-C17t")


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=66:malloc_context_size=20:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=66", "MSAN_OPTIONS": "exitcode=66",
           "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1"}


def do(prop, tier, seed, cases=None):
    C = Check(prop, tier, seed)
    n = cases or CASES[prop][0 if tier == "quick" else 1]
    # wall-clock time after which a worker stops with what it has observed, and after which it is given up
    bud, to = (360, 600) if tier == "quick" else (6000, 7200)
    if prop == "C16":
        with cf.ThreadPoolExecutor(2) as ex:
            a, m = ex.submit(asan_exe), ex.submit(msan_exe)
            a, m = a.result(), m.result()
        C.part("asan", a, "C16", n, dict(SAN_ENV, MON_BUDGET=str(bud // 2)), to)
        C.part("msan", m, "C16", n * 2 // 3, dict(SAN_ENV, MON_BUDGET=str(bud // 3)), to)
        return C
    if prop == "C17":
        with cf.ThreadPoolExecutor(2) as ex:
            a, t = ex.submit(plain, prop), ex.submit(tsan_exe)
            a, t = a.result(), t.result()
        C.part("plain", a, "C17", n, dict(MON_BUDGET=str(bud // 3)), to)
        C.part("threads", a, "C17T", n // 10, dict(MON_BUDGET=str(bud // 3)), to, nw=2)
        C.part("tsan", t, "C17T", n // 100, dict(SAN_ENV, MON_BUDGET=str(bud // 3)), to, nw=2)
        return C
    if prop == "C20":
        C.part("node", node_exe(), "C20", n, dict(SAN_ENV, MON_BUDGET=str(bud)), to)
        return C
    exe = plain(prop)
    C.part("plain", exe, prop, n, dict(MON_BUDGET=str(bud)), to)
    return C


def finish(C, wall):
    prop = C.prop
    known = known_findings(prop)
    # a deviation that only exceeds the calibrated limit needs two independent events of the same kind
    strict = {}
    for key, st, txt, rp in C.events:
        if st == 1:
            strict.setdefault(key.split(":")[0], []).append(key)
    viol, hit, weak = [], {}, 0
    for key, st, txt, rp in C.events:
        k = next((k for k in known if re.fullmatch(k[0], key) and re.search(k[1], txt)), None)
        if k:
            hit[k] = hit.get(k, 0) + 1
            continue
        if st == 1 and len(strict[key.split(":")[0]]) < 2:
            weak += 1
            continue
        # seen at single inputs only, not next to them (round-off decides there): counts when it is frequent
        if st == 2 and C.counts.get("fragile_" + key.split(":")[0], 0) < max(40, C.counts.get("cases", 0) // {"C09": 50, "C10": 50, "C20": 5}.get(prop, 1000)):
            weak += 1
            continue
        viol.append((key, txt, rp))
    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.remove(f)
    seen = {}
    for key, txt, rp in viol:
        seen.setdefault(key, (txt, rp))
    first = None
    for i, (key, (txt, rp)) in enumerate(sorted(seen.items())[:20]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump(dict(property=prop, seed=C.seed, tier=C.tier, key=key, text=txt, **rp), open(path, "w"), indent=1)
        print("%s %s: %s" % (prop, key, txt[:700]))
        first = first or path
    cov = dict(evaluations=C.counts.get("cases", 0), distinct_nontrivial=len(C.distinct), rule=RULES.get(prop, ""), samples=C.samples,
               observed={k: v for k, v in sorted(C.counts.items())}, worst_deviation={k: v for k, v in sorted(C.worst.items())},
               weak_events=weak, weak_samples=[e[0] + " " + e[2][:500] for e in C.events if e[1]][:6] if not viol else [], inconclusive=C.incon)
    ev = dict(property=prop, tier=C.tier, seed=C.seed, level="exploration", coverage=cov,
              assumptions=[ASSUME_REF, "the independent oracle integrates in double precision"], wall_s=round(wall, 2), violations=len(seen))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if seen:
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if not C.counts.get("cases") or not C.distinct:
        print("error: nothing observed; inconclusive: %s" % C.incon)
        return 2
    for s in C.incon:
        print("inconclusive: " + s)
    print("%s held on %d cases, %d distinct observations, %.1f s" % (prop, C.counts["cases"], len(C.distinct), wall))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try:
        if a.setup:
            plain("C01")
            return 0
        if a.replay:
            rp = json.load(open(a.replay))
            print(json.dumps({k: v for k, v in rp.items() if k != "log"}, indent=1))
            if rp.get("log"):
                print(rp["log"])
            part = rp.get("part")
            exe = {"asan": asan_exe, "node": node_exe, "msan": msan_exe, "tsan": tsan_exe}.get(part, lambda: plain(rp["property"]))()
            mon = "C17T" if part in ("threads", "tsan") else rp["property"]
            if rp.get("case") is not None:
                e = dict(os.environ)
                e.update(SAN_ENV)
                return subprocess.run([exe, mon, str(rp["seed"]), "--case", str(rp["case"])], env=e).returncode
            return 0
        return finish(do(a.prop, a.tier, a.seed, a.cases), time.time() - t0)
    except HarnessError as e:
        print("error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
