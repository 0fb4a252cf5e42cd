"""Runs the proof units that decide one property and reports the outcome.

Every unit is compiled from /repo's current headers on each run, executed by the verifier engine over all paths, and
each obligation is discharged by rewriting or by Z3.  See DESIGN.md for the reporting rules."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))
OPT = "/usr/lib/llvm-18/bin/opt"
INCLUDES = ["-I" + REPO + "/include", "-I" + VERIF + "/harness"]


class Unit:
    def __init__(self, name, src, props, layer, unit=None, flags=(), parts=1, tier="quick", bound="", timeout=300, implicit=None, what="", search=False):
        self.name, self.src, self.props, self.layer, self.flags = name, src, props.split(), layer, list(flags)
        self.unit = unit or name
        self.parts, self.tier, self.bound, self.timeout, self.what = parts, tier, bound, timeout, what
        self.implicit = implicit.split() if implicit is not None else self.props
        self.ll_key = (src, tuple(self.flags))


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace")


def engine(build):
    """The engine is built by setup_cmd; a check that finds none (or an older one) builds its own."""
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cpp", "expr.h")]
    for cand in (os.path.join(VERIF, "build", "cv"),):
        if os.path.exists(cand) and all(os.path.getmtime(cand) >= os.path.getmtime(s) for s in src):
            return cand
    out = os.path.join(build, "cv")
    rc, log = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), out], timeout=600)
    if rc != 0:
        print("engine build failed:\n" + log[-2000:])
        sys.exit(2)
    return out


def compile_ll(key, build, i):
    src, flags = key
    raw = os.path.join(build, "m%d.raw.ll" % i)
    out = os.path.join(build, "m%d.ll" % i)
    rc, log = sh(["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-unroll-loops", "-w",
                  "-ferror-limit=3"] + INCLUDES + list(flags) + ["-S", "-emit-llvm", os.path.join(VERIF, "harness", src), "-o", raw], timeout=400)
    if rc != 0:
        return None, log
    rc, log2 = sh([OPT, "-S", "-passes=function(sroa,early-cse,simplifycfg)", raw, "-o", out], timeout=400)
    os.unlink(raw)
    if rc != 0:
        return None, log2
    return out, log


def run_part(cv, ll, u, i, k, timeout, outdir, idx):
    out = os.path.join(outdir, "r%d_%d.json" % (idx, i))
    t0 = time.time()
    rc, log = sh([cv, ll, "--unit", "vf_unit_" + u.unit, "--part", "%d/%d" % (i, k), "--timeout", "%d" % max(1, timeout), "--out", out, "--repo", REPO + "/include/"],
                 timeout=timeout + 60)
    try:
        d = json.load(open(out))
    except Exception:
        d = {"tool_error": "engine rc=%s %s" % (rc, log[-300:])}
    d["_t"] = time.time() - t0
    return d


TAG = re.compile(r"^(P\d\d(?:,P\d\d)*): ")


def tags(msg):
    m = TAG.match(msg)
    return m.group(1).split(",") if m else []


def plain(name):
    """The name of a function of the library without template arguments and parameters."""
    n = name.replace("operator<=", "operator`le").replace("operator<", "operator`lt").replace("operator->", "operator`ar").replace("operator>=", "operator`ge").replace("operator>", "operator`gt").replace("operator()", "operator`call").replace("(anonymous namespace)", "anon")
    out, d = [], 0
    for ch in n:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    n = "".join(out)
    n = re.sub(r"\{lambda.*", "lambda", n.split("(")[0]).strip().split(" ")[-1]
    for a, b in (("`le", "<="), ("`lt", "<"), ("`ar", "->"), ("`ge", ">="), ("`gt", ">"), ("`call", "()")):
        n = n.replace(a, b)
    return n


class Result:
    def __init__(self, u):
        self.u = u
        self.tot = dict(paths=0, steps=0, trivial=0, solver=0, failed=0, undecided=0, implicit=0, queries=0, cached=0, solver_s=0.0, pruned=0)
        self.obl, self.fails, self.functions, self.covers, self.problems = {}, [], set(), {}, []
        self.parts_done = 0
        self.cpu = 0.0

    def add(self, d):
        self.cpu += d.get("_t", 0)
        if "tool_error" in d:
            self.problems.append("tool limit: " + d["tool_error"] + (" | " + d.get("stack", "").split("\n")[0] if d.get("stack") else ""))
            return
        self.parts_done += 1
        for k in self.tot:
            self.tot[k] += d.get(k, 0)
        for m, o in d["obligations"].items():
            t = self.obl.setdefault(m, [0, 0, 0, 0])
            for j in range(4):
                t[j] += o[j]
        for m, c in d["covers"].items():
            self.covers[m] = self.covers.get(m, 0) + c
        self.functions |= set(f.split(" ", 1)[0] + " " + plain(f.split(" ", 1)[1]) if " " in f else f for f in d["functions"])
        self.fails += d["failures"]
        if d["incomplete"] and d["why"] != "too many failures":
            self.problems.append(d["why"])


def collect_fails(pid, results):
    out = []
    for r in results:
        seen = {}
        for f in r.fails:
            if f["kind"] == "assert":
                if pid not in tags(f["msg"]):
                    continue
            elif pid not in r.u.implicit:
                continue
            key = (f["kind"], f["msg"], f["loc"])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 3:
                out.append((r.u, f))
    return out


def build_native(u, build, tag, san):
    out = os.path.join(build, "native_%s_%s" % (u.name, tag))
    if os.path.exists(out):
        return out
    rc, log = sh(["g++", "-std=c++17", "-g", "-O1", "-w", "-rdynamic"] + san + INCLUDES + list(u.flags) +
                 [os.path.join(VERIF, "harness", u.src), os.path.join(VERIF, "harness", "vf_native.cpp"), "-o", out, "-ldl"], timeout=400)
    if rc != 0:
        return None
    return out


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
ENVS = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="exitcode=99:print_stacktrace=1")


def replay(u, f, build):
    """Runs the recorded inputs against the real code, natively.  Returns (reproduced, output)."""
    kind = f["kind"]
    inp = os.path.join(build, "in_%d" % (abs(hash(f["inputs"] + u.name)) % 10**9))
    open(inp, "w").write(f["inputs"] + "\n")
    if kind == "uninitialized":
        exe = build_native(u, build, "vg", [])
        if not exe:
            return False, "native build failed"
        rc, log = sh(["valgrind", "-q", "--error-exitcode=98", exe, u.unit, inp], timeout=120)
        if rc in (98, 10):
            return True, log
    if kind in ("frame", "order"):
        exe = build_native(u, build, "tsan", ["-fsanitize=thread", "-DVF_TSAN", "-pthread"])
        if not exe:
            return False, "native build failed"
        rc, log = sh([exe, u.unit, inp], timeout=120, env=dict(os.environ, TSAN_OPTIONS="exitcode=66"))
        return rc in (66, 10) and "data race" in log and "bpptree" in log, log
    exe = build_native(u, build, "asan", ASAN)
    if not exe:
        return False, "native build failed"
    rc, log = sh([exe, u.unit, inp], timeout=40, env=ENVS)
    if rc == 124:
        return kind == "termination", "the run does not end within 40 s\n" + log
    if rc in (10, 99) or rc >= 128 or rc < 0:
        return True, log
    return False, log


def run(pid, units, tier, search_units, known, seed, out=sys.stdout, level=None):
    t0 = time.time()
    build = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try:
        return _run(pid, units, tier, search_units, known, seed, out, level, t0, build)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def _run(pid, units, tier, search_units, known, seed, out, level, t0, build):
    budget = 600 if tier == "quick" else 12000
    sel = [u for u in units if pid in u.props and (tier == "thorough" or u.tier == "quick")]
    results = [Result(u) for u in sel]
    keys = []
    for u in sel:
        if u.ll_key not in keys:
            keys.append(u.ll_key)
    lock = threading.Lock()
    ex = cf.ThreadPoolExecutor(NPROC)
    eng = ex.submit(engine, build)
    lls = {k: ex.submit(compile_ll, k, build, i) for i, k in enumerate(keys)}
    try:
        cv = eng.result()
    except SystemExit:
        raise
    futs = []
    stop = threading.Event()

    def job(r, i, k, idx):
        left = budget - (time.time() - t0)
        if left < 5:
            return r, {"tool_error": "time budget used up"}
        ll, log = lls[r.u.ll_key].result()
        if ll is None:
            return r, {"tool_error": "does not compile: " + first_error(log)}
        tmo = r.u.timeout if tier == "quick" else max(r.u.timeout, 3000)
        return r, run_part(cv, ll, r.u, i, k, int(min(left, tmo)), build, idx)

    # wait for compilations first (they are short) so that workers never block on them
    for k in keys:
        lls[k].result()
    for idx, r in enumerate(results):
        for i in range(r.u.parts):
            futs.append(ex.submit(job, r, i, r.u.parts, idx))
    for f in cf.as_completed(futs):
        r, d = f.result()
        r.add(d)
    ex.shutdown()
    fails = collect_fails(pid, results)
    violations, undecided, knownhits = [], [], []
    bounded = [(u, f) for u, f in fails if u.layer == "bounded"]
    contract = [(u, f) for u, f in fails if u.layer == "contract"]
    confirmed = None
    tried = 0
    for u, f in bounded:
        kf = match_known(known, pid, u, f)
        if kf:
            knownhits.append(kf)
            continue
        if tried >= 12 or confirmed:
            continue
        tried += 1
        ok, log = replay(u, f, build)
        if ok:
            confirmed = (u, f, log)
        elif f["kind"] in ("frame", "order", "uninitialized"):
            undecided.append((u, f, "no native replay of this kind of obligation"))
        else:
            undecided.append((u, f, "the verifier's counterexample does not reproduce natively: " + log[-300:]))
    soft = [x for x in undecided if x[1]["kind"] in ("frame", "order", "uninitialized")]
    contract = [(u, f) for u, f in contract if not match_known(known, pid, u, f)]
    if not confirmed and (contract or soft):
        # look for a failing history through the public interface
        confirmed = search(pid, search_units, build, seed, 60 if tier == "quick" else 300)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for kf in sorted(set(k["id"] for k in knownhits)):
        k = [x for x in known if x["id"] == kf][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), file=out)
    rc = 0
    nviol = 0
    if confirmed:
        u, f, log = confirmed
        p = os.path.join(VERIF, "replay", pid + ".json")
        json.dump({"property": pid, "unit": u.name, "source": "harness/" + u.src, "flags": u.flags, "entry": u.unit, "obligation": f, "native_output": log[-4000:],
                   "replay_cmd": "python3 %s/check.py --replay %s" % (VERIF, p), "also_failed": [(a.name, b["kind"], b["msg"], b["loc"]) for a, b in fails][:40]}, open(p, "w"), indent=1)
        print("failed obligation [%s] %s at %s (unit %s)" % (f["kind"], f["msg"], f["loc"], u.name), file=out)
        print("VIOLATION property=%s replay=%s" % (pid, p), file=out)
        rc, nviol = 1, len(fails)
    elif contract or soft:
        u, f = contract[0] if contract else soft[0][:2]
        p = os.path.join(VERIF, "replay", pid + ".json")
        extra = ""
        if u.layer == "contract":
            ok, extra = replay(u, f, build)
        json.dump({"property": pid, "unit": u.name, "source": "harness/" + u.src, "flags": u.flags, "entry": u.unit, "obligation": f, "verifier_output": [(a.name, b) for a, b in (contract or fails)][:20], "native_run_of_the_contract": extra[-3000:]}, open(p, "w"), indent=1)
        print("failed obligation [%s] %s at %s (unit %s)" % (f["kind"], f["msg"], f["loc"], u.name), file=out)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p), file=out)
        rc, nviol = 1, len(fails)
    for r in results:
        for pr in sorted(set(r.problems)):
            print("undecided: unit %s: %s" % (r.u.name, pr[:300]), file=out)
    evidence(pid, tier, seed, results, undecided, nviol, time.time() - t0, level)
    s = summary(pid, results)
    print("%s %s: %d contract units (%d obligations discharged), %d bounded units (%d), %.1f s solver, %.1f s wall" % (pid, tier, s["cu"], s["cd"], s["bu"], s["bd"], s["ss"], time.time() - t0), file=out)
    return rc


def first_error(log):
    for l in log.split("\n"):
        if "error:" in l:
            return l[:300]
    return log[:300]


def match_known(known, pid, u, f):
    for k in known:
        if k.get("property") == pid and k.get("status") == "known" and k.get("unit") == u.name and k.get("msg") == f["msg"] and (not k.get("inputs_re") or re.search(k["inputs_re"], f["inputs"])):
            return k
    return None


def search(pid, search_units, build, seed, secs):
    """Random histories through the public interface, natively with sanitizers: only used to find a concrete failing
    input for an obligation that has already failed."""
    sel = [u for u in search_units if pid in u.props]
    if not sel:
        return None
    found = []
    t0 = time.time()

    def one(args):
        j, u = args
        exe = build_native(u, build, "asan", ASAN)
        if not exe:
            return None
        cur = os.path.join(build, "cur_%d" % j)
        left = secs - (time.time() - t0)
        if left < 3:
            return None
        rc, log = sh([exe, u.unit, "random", str(seed * 1000 + j), str(int(min(left, secs / 2))), cur], timeout=left + 30, env=ENVS)
        if rc in (10, 99) or (rc >= 128) or rc < 0:
            m = re.search(r"FAILED (.*)", log)
            msg = m.group(1) if m else "sanitizer report"
            if m and tags(msg) and pid not in tags(msg):
                return None
            ins = re.search(r"INPUTS (.*)", log)
            inputs = ins.group(1) if ins else ""
            if not inputs:
                try:
                    inputs = "seed " + open(cur).read().strip()
                except Exception:
                    pass
            return u, {"kind": "assert" if m else "memory", "msg": msg, "loc": "random search", "inputs": inputs, "stack": "", "notes": ""}, log
        return None

    for u in sel:  # build once each, in parallel
        pass
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda u: build_native(u, build, "asan", ASAN), sel))
        jobs = []
        while len(jobs) < NPROC:
            for u in sel:
                jobs.append((len(jobs), u))
        for r in ex.map(one, jobs):
            if r:
                return r
    return None


def summary(pid, results):
    s = dict(cu=0, cd=0, bu=0, bd=0, ss=0.0)
    for r in results:
        n = sum(o[0] + o[1] for m, o in r.obl.items() if pid in tags(m)) + r.tot["implicit"]
        s["ss"] += r.tot["solver_s"]
        if r.u.layer == "contract":
            s["cu"] += 1
            s["cd"] += n
        else:
            s["bu"] += 1
            s["bd"] += n
    return s


def evidence(pid, tier, seed, results, undecided, nviol, wall, level):
    def block(layer):
        rs = [r for r in results if r.u.layer == layer]
        named = {}
        for r in rs:
            for m, o in r.obl.items():
                if pid in tags(m):
                    t = named.setdefault(m, [0, 0, 0, 0])
                    for j in range(4):
                        t[j] += o[j]
        return rs, named

    crs, cnamed = block("contract")
    brs, bnamed = block("bounded")

    def cnt(named, rs):
        by_rw = sum(o[0] for o in named.values())
        by_z3 = sum(o[1] for o in named.values())
        return dict(named_obligations=len(named), discharged_by_rewriting=by_rw, discharged_by_z3=by_z3, failed=sum(o[2] for o in named.values()), undecided=sum(o[3] for o in named.values()),
                    implicit_safety_obligations=sum(r.tot["implicit"] for r in rs), paths=sum(r.tot["paths"] for r in rs), instructions=sum(r.tot["steps"] for r in rs),
                    z3_queries=sum(r.tot["queries"] for r in rs), cached_query_answers=sum(r.tot["cached"] for r in rs), solver_s=round(sum(r.tot["solver_s"] for r in rs), 2))

    c, b = cnt(cnamed, crs), cnt(bnamed, brs)
    from units import ASSUMPTIONS, LEVELS
    lv = level or LEVELS.get(pid, "other")
    src = crs if (lv == "proof" and crs) else results
    cc = c if lv == "proof" else None
    cov = {}
    if lv == "proof":
        ob = c["discharged_by_rewriting"] + c["discharged_by_z3"] + c["failed"] + c["undecided"] + c["implicit_safety_obligations"]
        cov["obligations"] = ob
        cov["discharged"] = ob - c["failed"] - c["undecided"]
        cov["checker_cmd"] = "python3 check.py %s (engine/cv on LLVM IR of /repo/include, back end Z3 4.8.12 QF_BV)" % pid
        cov["trusted_base"] = ["clang-18 front end and opt (sroa, early-cse, simplifycfg)", "engine/cv (LLVM IR semantics, memory model, rewriting)", "Z3 4.8.12", "the modular composition argument of DESIGN.md (ghost child contracts, induction over depth)"]
    else:
        cov["explanation"] = "Bounded stand-in only (never counted as proved): the public histories listed under bounded_stand_in were executed symbolically over all paths and every obligation discharged."
    if crs:
        cov["contract_layer"] = dict(c, functions_under_contract=sorted(set().union(*[r.functions for r in crs])) if crs else [], units=[unitrec(r, pid) for r in crs], obligations_by_name={m: dict(rewriting=o[0], z3=o[1], failed=o[2], undecided=o[3]) for m, o in sorted(cnamed.items())})
    if brs:
        cov["bounded_stand_in"] = dict(b, note="bounded, not proved", functions_executed=sorted(set().union(*[r.functions for r in brs])), units=[unitrec(r, pid) for r in brs], obligations_by_name={m: dict(rewriting=o[0], z3=o[1], failed=o[2], undecided=o[3]) for m, o in sorted(bnamed.items())})
    cov["not_explored"] = [dict(unit=r.u.name, problem=p) for r in results for p in sorted(set(r.problems))]
    cov["undecided_failures"] = [dict(unit=u.name, kind=f["kind"], msg=f["msg"], why=w[:300]) for u, f, w in undecided][:20]
    d = dict(property=pid, tier=tier, seed=seed, level=lv, coverage=cov, assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)


def unitrec(r, pid):
    d = dict(unit=r.u.name, source="harness/" + r.u.src, flags=r.u.flags, what=r.u.what, parts=r.u.parts, parts_completed=r.parts_done, paths=r.tot["paths"], cpu_s=round(r.cpu, 1))
    if r.u.bound:
        d["bound"] = r.u.bound
    if r.covers:
        d["covered"] = r.covers
    return d
