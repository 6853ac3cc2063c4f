#!/usr/bin/env python3-vt
"""Decides a property of the Python sources with lib/pysym.py; same interface and evidence as check.py.

usage: checkpy.py PROPERTY [--tier quick|thorough] [--only ENTRY]"""
import argparse, builtins, importlib, importlib.util, json, multiprocessing, os, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild as vb
import pysym
import ast, types

VERIF, REPO = vb.VERIF, vb.REPO
T0 = time.time()
PROPS = {"C26": dict(harness="C26.py", pkgdir="python/caliper-reader/caliperreader", pkg="caliperreader", dump="C26_dump.cpp")}


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def plain(s):
    return s.plain() if type(s) is pysym.S else s


class X(pysym.Engine):
    """what the harness sees"""
    def __init__(self, params, tmp=None, **kw):
        super().__init__(**kw)
        self.params, self.tmp, self.files = params, tmp, []

    def param(self, n): return self.params[plain(n)]
    def choose(self, n, k): return super().choose(plain(n), k)
    def string(self, n, k): return super().string(plain(n), k)
    def check(self, c, m): super().check(c, plain(m))
    def mark(self, m): super().mark(plain(m))
    def conj(self, l): return pysym.conj(list(l))
    def disj(self, l): return pysym.disj(list(l))
    def neg(self, c): return pysym.neg(c)
    def eq(self, a, b): return pysym.eqt(a, b)

    def ge(self, c, n):
        k = c.c[0] if type(c) is pysym.S else ord(c)
        return k >= n if isinstance(k, int) else pysym.z3.UGE(k, n)

    def same_keys(self, a, b):
        return len(a) == len(b) and all(k in a for k in b)

    def source(self, lines):
        if self.concrete is None:
            return list(lines)
        p = os.path.join(self.tmp, "s%d.cali" % len(self.files))
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write("".join(lines))
        self.files.append(p)
        return p


def load_harness(P, symbolic):
    path = os.path.join(VERIF, "harness", P["harness"])
    if not symbolic:
        spec = importlib.util.spec_from_file_location("vh", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    m = types.ModuleType("vh_sym")
    m.__dict__.update(str=pysym.S, int=pysym.Int)
    exec(compile(ast.fix_missing_locations(pysym.Rewrite().visit(ast.parse(open(path).read()))), path, "exec"), m.__dict__)
    return m


def real_package(P):
    """the unmodified package"""
    root = os.path.join(REPO, os.path.dirname(P["pkgdir"]))
    sys.path.insert(0, root)
    try:
        return importlib.import_module(P["pkg"])
    finally:
        sys.path.remove(root)


def run_entry(a):
    P, name, tier, secs = a
    h = load_harness(P, False)
    params = h.ENTRIES[name][1 + (tier == "thorough")]
    funcs = []
    e = X(params, max_seconds=secs)
    pysym.E = e
    e.start([])
    e.work = []
    cr = pysym.load(os.path.join(REPO, P["pkgdir"]), P["pkg"], funcs)
    hs = load_harness(P, True)
    fn = getattr(hs, name)
    e.explore(lambda x: fn(x, cr))
    return dict(entry=name, params=params, stats=e.stats, incomplete=e.incomplete, reach=e.reach, assertions=e.assertions, violations=e.violations, samples=e.samples, wall=e.wall, functions=sorted(set(funcs)))


def concrete(P, name, params, inputs, tmp):
    """runs the unmodified package with plain values; (None or failure, files written)"""
    import traceback
    h = load_harness(P, False)
    e = X(params, tmp=tempfile.mkdtemp(dir=tmp))
    e.concrete = inputs
    pysym.E = e
    try:
        getattr(h, name)(e, real_package(P))
    except pysym.Killed:
        pass
    except Exception as ex:
        return "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:]), e.files
    return (e.violations[0]["msg"] if e.violations else None), e.files


def as_dict(ents):
    r = {}
    for n, v, hidden, nested in ents:
        if hidden:
            continue
        if n in r:
            r[n] = (r[n] if isinstance(r[n], list) else [r[n]]) + [v]
        else:
            r[n] = v
        if nested:
            r["path"] = r.get("path", []) + [v]
    return r


def build_dump(P):
    srcs = [s for s, _ in vb.sources(["common", "reader"])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: vb.compile_nat(j[0], flags=j[1]), [(os.path.join(VERIF, "harness", P["dump"]), vb.HFLAGS)] + [(s, []) for s in srcs]))
    exe = os.path.join(vb.NAT, P["dump"] + ".%s.exe" % vb.hashlib.sha256("|".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        vb.run([vb.CLANGXX, "-fsanitize=address", "-pthread", "-o", exe + ".tmp%d" % os.getpid()] + objs + ["-ldl"])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--build", action="store_true", help="only compile what is needed")
    a = ap.parse_args()
    P, tier = PROPS[a.property], a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.build:
        build_dump(P)
        return
    tmp = tempfile.mkdtemp(prefix="pysym_")
    try:
        sys.exit(decide(a, P, tier, tmp))
    except vb.BuildError as ex:
        log("BUILD ERROR", ex)
        sys.exit(3)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, P, tier, tmp):
    pid = a.property
    h = load_harness(P, False)
    names = [n for n in h.ENTRIES if not a.only or n == a.only]
    secs = 60 if tier == "quick" else 600
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map_async(run_entry, [(P, n, tier, secs) for n in names], chunksize=1)
        dump = build_dump(P)
        results = res.get()
    errors, viols, unrepro, samples = [], [], [], []
    validated = compared = 0
    outdir = os.path.join(vb.BUILD, "replay", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)

    def record(name, n, kind, msg, inputs, detail, status, stack=""):
        p = os.path.join(outdir, "%s_%s.json" % (name, n))
        json.dump(dict(property=pid, entry=name, kind=kind, msg=msg, inputs=inputs, stack=stack.split("\n"), native_output=detail, status=status), open(p, "w"), indent=1)
        viols.append((p, name, kind, msg, status))

    for r in results:
        n, s = r["entry"], r["stats"]
        log("%-14s paths %d killed %d queries %d (sat %d unsat %d unknown %d) solver %.1fs wall %.1fs%s%s" % (n, s["paths"], s["killed"], s["queries"], s["q_sat"], s["q_unsat"], s["q_unknown"], s["solver_s"], r["wall"],
            " VIOLATIONS %d" % len(r["violations"]) if r["violations"] else "", " INCOMPLETE %s" % r["incomplete"] if r["incomplete"] else ""))
        for i, v in enumerate(r["violations"]):
            f, files = concrete(P, n, r["params"], v["inputs"], tmp)
            if f is None:
                unrepro.append("%s: %s: %s %s" % (n, v["kind"], v["msg"], json.dumps(v["inputs"])))
            else:
                record(n, i, v["kind"], v["msg"], v["inputs"], f, "reproduced with the unmodified package", v["stack"])
        for i, (lab, inp) in enumerate(sorted(r["samples"].items())):
            f, files = concrete(P, n, r["params"], inp, tmp)
            if f is not None:
                record(n, "sample%d" % i, "native", f.split("\n")[0], inp, f, "run of a solver-chosen input failed")
                continue
            validated += 1
            if files:
                out = subprocess.run([dump] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="utf-8", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
                if out.returncode != 0:
                    errors.append("%s: the C++ reader failed on a sample: %s" % (n, out.stderr[-500:]))
                    continue
                for fn, l in zip(files, out.stdout.split("\n")):
                    c = json.loads(l)
                    py = real_package(P).CaliperReader()
                    py.read(fn)
                    want = [as_dict(x) for x in c["records"]]
                    if c["error"] or want != py.records or as_dict(c["globals"]) != py.globals:
                        record(n, "cxx%d" % i, "native", "the C++ reader delivers something else: %s / %s" % (json.dumps(want)[:300], json.dumps(py.records)[:300]), inp, l, "run of a solver-chosen input with both readers")
                    else:
                        compared += 1
            samples.append(dict(entry=n, label=lab, inputs=inp))
        if not r["violations"]:
            if r["reach"].get(h.ENTRIES[n][3], 0) == 0:
                errors.append("%s: VACUOUS: label never reached (incomplete: %s)" % (n, r["incomplete"]))
            if not r["assertions"] or not s["paths"]:
                errors.append("%s: VACUOUS: no path completed or no assertion evaluated (incomplete: %s)" % (n, r["incomplete"]))
    tot = lambda k: sum(r["stats"][k] for r in results)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=tot("paths"), transitions=tot("branches"), traces_validated_against_impl=validated, compared_with_cxx_reader=compared,
                            exhaustive=not errors and not any(r["incomplete"] for r in results), not_exhausted={r["entry"]: r["incomplete"] for r in results if r["incomplete"]},
                            queries=tot("queries"), queries_sat=tot("q_sat"), queries_unsat=tot("q_unsat"), queries_unknown=tot("q_unknown"), solver_s=round(tot("solver_s"), 2),
                            assertions_evaluated=sum(sum(r["assertions"].values()) for r in results), assertion_texts=sorted(set(m for r in results for m in r["assertions"])),
                            bounds={n: h.ENTRIES[n][4] for n in names}, parameters={r["entry"]: r["params"] for r in results},
                            functions_encoded=sorted(set(f for r in results for f in r["functions"])), n_functions_encoded=len(set(f for r in results for f in r["functions"])),
                            solver="z3 (python bindings), QF_BV", samples=samples[:20], unreproduced=unrepro),
              assumptions=["the Python sources are executed by the CPython interpreter with symbolic strings in place of all strings; dict, list and control flow are the interpreter's own"],
              wall_s=round(time.time() - T0, 1), violations=len(viols))
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d paths, %d queries, %d native replays agreed, %d compared with the C++ reader" % (pid, tier, tot("paths"), tot("queries"), validated, compared))
    for u in unrepro:
        print("UNREPRODUCED:", u)
    for x in errors:
        print("CHECK-ERROR:", x)
    for p, n, kind, msg, status in viols:
        print("  %s: %s: %s [%s]" % (n, kind, msg, status))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    return 1 if viols else 3 if errors else 0


if __name__ == "__main__":
    main()
