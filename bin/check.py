#!/usr/bin/env python3
"""Decides one property: compiles its driver with the current /repo headers for symbolic
execution, explores it, replays counterexamples on a plain build, writes the evidence."""
import traceback
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COMMA_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "0") or "0")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def engine(build):
    """Builds the pass plugin and the runtime unless an up-to-date copy exists."""
    eng = os.path.join(VERIF, "engine")
    os.makedirs(build, exist_ok=True)
    kp = digest(os.path.join(eng, "SymPass.cpp"))
    kr = digest(os.path.join(eng, "rt.cpp"))
    so, rt = os.path.join(build, f"SymPass-{kp}.so"), os.path.join(build, f"libsymrt-{kr}.so")

    def mk(out, cmd):
        if os.path.exists(out):
            return ""
        tmp = f"{out}.{os.getpid()}"
        r = sh(cmd + ["-o", tmp])
        if r.returncode:
            return r.stdout
        os.rename(tmp, out)
        return ""
    fl = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    fl = [f for f in fl if not f.startswith("-std") and f != "-fno-exceptions"]
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(mk, so, [CLANG, "-O0", "-fPIC", "-shared", "-fno-rtti", *fl, "-std=c++17",
                               os.path.join(eng, "SymPass.cpp")])
        b = ex.submit(mk, rt, ["g++", "-std=c++17", "-O2", "-fPIC", "-shared", os.path.join(eng, "rt.cpp"), "-lz3"])
        for e in (a.result(), b.result()):
            if e:
                die("engine build failed\n" + e[-3000:])
    return so, rt


def config_header(work):
    """CoMMAConfig.h from the repository's template, with the default types."""
    t = open(os.path.join(REPO, "config_files", "CoMMAConfig.h.in")).read()
    t = re.sub(r"@INDEX_T@", "unsigned long", t)
    t = re.sub(r"@REAL_T@", "double", t)
    t = re.sub(r"@INT_T@", "int", t)
    t = re.sub(r"@PROJECT_VERSION@", "1.0.0", t)
    t = re.sub(r"@[A-Z_]*@", "1", t)
    os.makedirs(os.path.join(work, "CoMMA"), exist_ok=True)
    open(os.path.join(work, "CoMMA", "CoMMAConfig.h"), "w").write(t)


def compile_driver(work, so_future, src, flags, tag):
    inc = ["-std=c++17", f"-I{work}", f"-I{REPO}/include", f"-I{VERIF}/engine", f"-I{VERIF}/harness",
           f"-I{VERIF}/harness/pystub", "-w",
           f"-DREPO_SRC=\"{REPO}/src/CoMMA.cpp\"", *flags]
    common = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno",
              "-D_GLIBCXX_ASSERTIONS"]
    s = os.path.join(VERIF, "harness", src)

    def sym():
        so, rt = so_future.result()
        b, e = os.path.join(work, tag + ".bc"), os.path.join(work, tag + ".sym")
        r = sh([CLANG, *inc, *common, f"-fpass-plugin={so}", "-emit-llvm", "-c", s, "-o", b])
        if r.returncode:
            return r.stdout
        # code generation of the parts in parallel
        n = 8
        r = sh(["llvm-split-18", "-j", str(n), b, "-o", b + "."])
        if r.returncode:
            return r.stdout
        objs = [f"{b}.{i}.o" for i in range(n)]
        ps = [subprocess.Popen(["llc-18", "-O1", "-filetype=obj", "-relocation-model=pic", f"{b}.{i}", "-o", objs[i]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in range(n)]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                return o
        r = sh([CLANG, *objs, "-o", e, rt, f"-Wl,-rpath,{os.path.dirname(rt)}"])
        return r.stdout if r.returncode else ""

    def nat():
        r = sh([CLANG, *inc, *common, "-DSYM_NATIVE", s, "-o", os.path.join(work, tag + ".nat")])
        return r.stdout if r.returncode else ""

    def san():
        # same program where invalid accesses stop it, built only to settle a counterexample the plain build survives
        r = sh([CLANG, *inc, *common, "-DSYM_NATIVE", "-D_GLIBCXX_DEBUG", "-fsanitize=address", s, "-o", os.path.join(work, tag + ".san")])
        return r.stdout if r.returncode else ""
    return sym, nat, san


def native(work, tag, case, vals, tier, extra=(), timeout=30, keep=None, kind=".nat"):
    path = keep or tempfile.mktemp(dir=work)
    with open(path, "w") as f:
        for k, v in vals.items():
            if not k.startswith(("h!", "sqrt!")):
                f.write(f"{k} {v}\n")
    try:
        r = subprocess.run([os.path.join(work, tag + kind), str(case), path, str(tier), *map(str, extra)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, cwd=work,
                           env=dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0"))
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = "", -14
    if not keep:
        os.unlink(path)
    return rc, out


def failed(rc, out):
    """Name of what went wrong in a plain run, or None."""
    if rc == 10:
        m = re.search(r"ASSERT-FAIL (.*)", out)
        return "assertion " + (m.group(1) if m else "?")
    if rc == 11:
        return "uncaught exception"
    if rc == -14:
        return "does not terminate"
    if rc < 0:
        return f"crash (signal {-rc})"
    return None


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py <property>; known: " + " ".join(PROPS))
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    thorough = TIER == "thorough"
    build = os.path.join(VERIF, "build")
    os.makedirs(build, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{pid}-", dir=build)
    ncpu = os.cpu_count() or 4
    try:
        config_header(work)
        with ThreadPoolExecutor(max(ncpu, 6)) as ex:
            so_future = ex.submit(engine, build)
            sans = {}
            reduced = False
            while True:
                jobs = []
                for i, d in enumerate(P["reduced"] if reduced and "reduced" in P else P["drivers"]):
                    tag = f"d{i}"
                    flags = d.get("flags", []) + (["-DREDUCED"] if reduced else [])
                    sym, nat, san = compile_driver(work, so_future, d["src"], flags, tag)
                    jobs.append((tag, d, ex.submit(sym), ex.submit(nat)))
                    sans[tag] = san
                so_future.result()
                errs = [(d, e) for tag, d, a, b in jobs for e in (a.result(), b.result()) if e]
                if not errs:
                    break
                if reduced:
                    die(f"compilation of {errs[0][0]['src']} failed\n" + errs[0][1][-4000:])
                reduced = True  # a name only the library itself uses has gone: without the cases that call it
            P = dict(P, is_reduced=reduced)
        t_build = time.time() - t0
        return decide(pid, P, work, jobs, sans, thorough, ncpu, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, work, jobs, sans, thorough, ncpu, t0, t_build):
    limit = P.get("time", [40, 400])[1 if thorough else 0]
    limit = float(os.environ.get("COMMA_TIME") or limit)
    cases, viols, functions, sites = [], [], set(), 0
    samples, engine_errors, stopped = [], 0, False
    t_explore = time.time()
    share = limit / max(1, len(jobs))
    for tag, d, _, _ in jobs:
        out = os.path.join(work, tag + ".json")
        cmd = [os.path.join(work, tag + ".sym"), "--workers", str(ncpu), "--time", str(share), "--out", out,
               "--seed", str(SEED), *d.get("args", [])]
        if thorough:
            cmd.append("--thorough")
        if os.environ.get("COMMA_CASES"):  # development aid
            cmd += ["--cases", os.environ["COMMA_CASES"]]
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if os.environ.get("SYM_DEBUG"): print(r.stderr[:3000])
        if not os.path.exists(out):
            die(f"exploration of {d['src']} produced no result\n" + r.stderr[-2000:])
        res = json.load(open(out))
        engine_errors += res["engine_errors"]
        stopped |= res["stopped"]
        functions |= set(res["functions"])
        sites += res["branch_sites"]
        for c in res["cases"]:
            c["driver"], c["tag"] = d["src"], tag
            cases.append(c)
        for v in res["violations"]:
            v["tag"], v["driver"] = tag, d["src"]
            v["case_name"] = next(c["name"] for c in res["cases"] if c["case"] == v["case"])
            viols.append(v)
        for s, vals in res["samples"]:
            c, h = s.split()
            samples.append((tag, int(c), h, dict((l.split()[0], int(l.split()[1])) for l in vals.splitlines() if l)))
    t_explore = time.time() - t_explore

    # the encoding is checked against the plain build on sampled paths
    def validate(s):
        tag, c, h, vals = s
        rc, out = native(work, tag, c, vals, int(thorough))
        return rc == 0 and out.startswith("OK " + h), rc, out
    validated, bad = 0, []
    with ThreadPoolExecutor(ncpu) as ex:
        for s, (ok, rc, out) in zip(samples, ex.map(validate, samples)):
            if ok:
                validated += 1
            else:
                bad.append({"tag": s[0], "case": s[1], "rc": rc, "out": out[:80], "vals": s[3]})
    # a sample the two builds disagree on may rest on an invalid access
    for b in bad[:3]:
        viols.append({"tag": b["tag"], "driver": next(d["src"] for t, d, *_ in jobs if t == b["tag"]), "case": b["case"], "values": b["vals"],
                      "case_name": next(c["name"] for c in cases if c["tag"] == b["tag"] and c["case"] == b["case"]), "id": "builds agree",
                      "kind": "sample", "known": "", "havoc": False})

    # counterexamples
    known = {}
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)).get("findings", []):
            if k["property"] == pid:
                known[k["label"]] = k
    confirmed, unconfirmed, known_seen = [], [], {}
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    budget = time.time() + (60 if not thorough else 200)
    seen = {}
    for v in viols:
        key = (v["tag"], v["id"], v["kind"], v["known"])
        if seen.get(key, 0) >= 3:
            continue
        rc, out = native(work, v["tag"], v["case"], v["values"], int(thorough))
        what, vals = failed(rc, out), v["values"]
        if what is None and time.time() < budget:
            # the path used an abstracted value: look for inputs of the same shape
            what, vals = concretise(work, v, int(thorough), ncpu, min(budget, time.time() + 15))
        if what is None and not v["havoc"] and time.time() < budget:
            # exact path the plain build survives: an invalid access may go unnoticed there
            if callable(sans[v["tag"]]):
                sans[v["tag"]] = sans[v["tag"]]()
            if not sans[v["tag"]]:
                rc, out = native(work, v["tag"], v["case"], v["values"], int(thorough), kind=".san")
                what, vals = failed(rc, out), v["values"]
        if what is None:
            unconfirmed.append({"assertion": v["id"], "kind": v["kind"], "case": v["case_name"], "abstract": v["havoc"]})
            continue
        seen[key] = seen.get(key, 0) + 1
        rec = {"property": pid, "driver": v["driver"], "case": v["case"], "case_name": v["case_name"],
               "what": what, "assertion": v["id"], "values": vals, "tier": TIER}
        if v["known"] and v["known"] in known:
            known_seen.setdefault(v["known"], rec)
            continue
        os.makedirs(rep_dir, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9]+", "-", f"{pid}-{v['id']}-{len(confirmed)}")
        path = os.path.join(rep_dir, name + ".json")
        json.dump(rec, open(path, "w"), indent=1)
        confirmed.append((path, rec))

    tot = lambda k: sum(c[k] for c in cases)  # noqa: E731
    reasons = {}
    for c in cases:
        for k, n in c["reasons"].items():
            reasons[k] = reasons.get(k, 0) + n
    covers = {}
    for c in cases:
        for k, n in c["covers"].items():
            covers[k] = covers.get(k, 0) + n
    missing = [k for k in P.get("covers", []) if not covers.get(k) and not P["is_reduced"]]
    given_up = sum(reasons.values())
    exhausted = not stopped and not tot("pending") and not engine_errors and not given_up
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("violating_paths"),
            "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "samples": [{"case": s[1], "inputs": s[3]} for s in samples[:: max(1, len(samples) // 5)][:5]],
            "state_meaning": "one completed symbolic path: a class of inputs decided together by the solver",
            "transition_meaning": "a branch or index on symbolic data whose two sides were put to the solver",
            "cases": [{k: c[k] for k in ("driver", "name", "paths", "pruned", "decisions", "queries", "sat", "unsat", "unknown",
                                         "asserts_symbolic", "asserts_concrete", "assert_unknown", "pending", "maxdepth",
                                         "havoc_paths", "solver_s", "t_end")} for c in cases],
            "exhausted_within_bounds": exhausted,
            "solver_queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "queries_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
            "assertions_decided": tot("asserts_symbolic") + tot("asserts_concrete") - tot("assert_unknown"),
            "assertions_undecided": tot("assert_unknown"),
            "paths_cut_by_assumptions": tot("pruned"), "symbolic_branch_sites": sites,
            "functions_encoded": sorted(functions), "reduced_to_names_used_by_tests": P["is_reduced"], "bounds": P["bounds"],
            "outside": P.get("outside", ""), "parts_given_up": given_up, "incomplete_reasons": reasons, "reached": covers,
            "labels_not_reached": missing, "unvalidated_samples": len(bad),
            "unconfirmed_counterexamples": unconfirmed[:10],
            "build_s": round(t_build, 2), "explore_s": round(t_explore, 2),
        },
        "assumptions": ["inputs of floating-point kind are integers in the stated ranges",
                        "products/quotients of symbolic values are unconstrained in the paths counted by havoc_paths",
                        "code is the one clang 18 -O1 emits for <unsigned long, double, int>"],
        "violations": len(confirmed),
        "counterexamples": [dict(r, replay=p) for p, r in confirmed],
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    print(f"{pid}: {ev['coverage']['states']} paths, {tot('decisions')} decisions, {tot('queries')} queries "
          f"({tot('solver_s'):.1f} s solver), {validated}/{len(samples)} validated, exhausted={exhausted}, "
          f"build {t_build:.1f} s, explore {t_explore:.1f} s")
    for k, n in sorted(reasons.items()):
        print(f"  note: {k}: {n}")
    for u in unconfirmed[:5]:
        print(f"  note: counterexample not reproduced on the plain build: {u}")
    for b in bad[:3]:
        print(f"  note: sample differs from the plain build: {b}")
    if P["is_reduced"]:
        print("  note: without the cases that call parts of the library under names its tests do not use")
    if missing:
        print("  note: labels not reached:", ", ".join(missing))
    for k, rec in known_seen.items():
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    for path, rec in confirmed:
        print(f"  counterexample: {rec['what']} in case '{rec['case_name']}' with {rec['values']}")
    if confirmed:
        print(f"VIOLATION property={pid} replay={confirmed[0][0]}")
        return 1
    return 0


def concretise(work, v, tier, ncpu, until):
    """Inputs of the shape of a counterexample found with abstracted arithmetic."""
    base = SEED * 1000003 + 17
    k = 0
    with ThreadPoolExecutor(ncpu) as ex:
        while time.time() < until and k < 4000:
            batch = list(range(k, k + 8 * ncpu))
            k += len(batch)

            def one(i):
                p = tempfile.mktemp(dir=work)
                rc, out = native(work, v["tag"], v["case"], v["values"], tier, (base + i + 1, 1), keep=p)
                w = failed(rc, out)
                os.unlink(p)
                return w, i
            for w, i in ex.map(one, batch):
                if w:
                    vals = {a: b for a, b in v["values"].items() if not a.startswith("h!")}
                    vals["__seed__"] = base + i + 1
                    return w, vals
    return None, v["values"]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # an error of the check is not a verdict
        traceback.print_exc()
        sys.exit(2)
