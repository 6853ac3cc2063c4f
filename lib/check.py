#!/usr/bin/env python3
"""Decides one property: encodes the harness and /repo's current sources, runs the symbolic executor, replays what it finds.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--no-native] [--scale X]
"""
import argparse, glob, json, os, re, subprocess, sys, tempfile, threading, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild as vb
import specs
from concurrent.futures import ThreadPoolExecutor

VERIF = vb.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Slots:
    def __init__(self, n):
        self.n = n
        self.c = threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def merge(out):
    r = json.load(open(out))
    if "workers" not in r:
        return r
    res = None
    parts = [out + ".w0"] + [out + ".w%d" % (i + 1) for i in range(r["workers"])]
    crashed = r["crashed"]
    for p in parts:
        try:
            x = json.load(open(p))
        except (OSError, ValueError):
            crashed = 1
            continue
        if res is None:
            res = x
            continue
        for k, v in x.items():
            if isinstance(v, (int, float)):
                res[k] = max(res[k], v) if k in ("maxdepth", "max_query_s", "wall_s") else res[k] + v
            elif k in ("incomplete", "reach", "assertions"):
                for a, b in v.items():
                    res[k][a] = res[k].get(a, 0) + b
            elif k == "samples":
                for a, b in v.items():
                    if a.startswith("path#"):
                        a += "/" + os.path.basename(p).split(".")[-1]
                    res[k].setdefault(a, b)
            elif k == "functions":
                res[k] = sorted(set(res[k]) | set(v))
            elif k == "violations":
                have = {(y["kind"], y["msg"], y["loc"]) for y in res[k]}
                res[k] += [y for y in v if (y["kind"], y["msg"], y["loc"]) not in have]
    if crashed:
        res["incomplete"]["engine worker ended early"] = 1
    return res


def run_entry(pid, bc, e, tier, tmpdir, slots, scale):
    t = 0 if tier == "quick" else 1
    jobs = e.get("jobs", 1)
    secs = e["secs"][t] * scale
    out = os.path.join(tmpdir, e["entry"] + ".json")
    cmd = [os.path.join(vb.BUILD, "symx"), bc, "--entry", e["entry"], "--out", out, "--max-seconds", str(secs), "--jobs", str(jobs),
           "--src", vb.REPO + "/", "--max-viol", str(e.get("max_viol", 6)), "--solver-timeout", str(e.get("solver_ms", (10000, 60000))[t])]
    if "preempt" in e:
        cmd += ["--preempt", str(e["preempt"][t])]
    if "max_steps" in e:
        cmd += ["--max-steps", str(e["max_steps"])]
    for k, v in e.get("params", ({}, {}))[t].items():
        cmd += ["--param", "%s=%d" % (k, v)]
    cmd += e.get("args", [])
    slots.take(jobs)
    try:
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 1.5 + 120)
            err = p.stderr[-2000:]
            rc = p.returncode
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", out])
            err, rc = "engine did not stop in time", -1
        w = time.time() - t0
    finally:
        slots.give(jobs)
    if rc != 0 or not os.path.exists(out):
        return dict(entry=e, error="engine exit %s: %s" % (rc, err), wall=w)
    r = merge(out)
    r["entry"] = e
    r["wall"] = w
    return r


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for i in inputs:
            nm = re.sub(r"[^\x21-\x7e]", "_", i["name"]) or "_"
            f.write("%s %d %s\n" % (nm, i["size"], i["hex"] or "-"))


def replay(exe, e, tier, inputs, tmpdir, n, fill=None, timeout=30):
    t = 0 if tier == "quick" else 1
    path = os.path.join(tmpdir, "in_%s_%s" % (e["entry"], n))
    write_inputs(path, inputs)
    env = dict(os.environ)
    env["SYMX_REPLAY"] = path
    env["SYMX_PARAMS"] = ",".join("%s=%d" % kv for kv in e.get("params", ({}, {}))[t].items())
    env["TSAN_OPTIONS"] = "exitcode=99:report_thread_leaks=0"
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0" + (":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill if fill is not None else "")
    for k in [k for k in env if k.startswith("CALI_")]:
        del env[k]
    try:
        p = subprocess.run([exe, e["entry"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env, cwd=tempfile.mkdtemp(dir=tmpdir))
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    return rc, out


def failed_natively(rc):
    return rc == 1 or rc == 99 or rc == "timeout" or (isinstance(rc, int) and rc < 0)


def findings(pid):
    r = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l:
                x = json.loads(l)
                if x.get("property") == pid and x.get("status") == "known":
                    r.append(x)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    P = specs.PROPS[pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmpdir = tempfile.mkdtemp(prefix="symx_%s_" % pid)
    try:
        sys.exit(decide(a, pid, P, tier, seed, tmpdir))
    except vb.BuildError as ex:
        log("BUILD ERROR", ex)
        sys.exit(3)
    finally:
        if not a.keep:
            shutil.rmtree(tmpdir, ignore_errors=True)


def decide(a, pid, P, tier, seed, tmpdir):
    vb.build_engine()
    units = P["units"]
    slots = Slots(8)
    results = []      # (unit, result)
    nat = {}
    def prep(u):
        ents = [e for e in u["entries"] if not a.only or a.only == e["entry"]]
        if tier == "quick":
            ents = [e for e in ents if not e.get("thorough_only")]
        if not ents:
            return []
        bc = vb.build_bc(os.path.join(VERIF, "harness", u["harness"]), u["groups"], [e["entry"] for e in u["entries"]], u.get("exclude", ()))
        return [(u, bc, e) for e in ents]
    work = []
    for u in units:
        work += prep(u)
    log("encoded %d harness units from the current tree" % len(units))
    natthread = None
    nat_err = []
    def natbuild():
        for u in units:
            if any(w[0] is u for w in work):
                try:
                    nat[u["harness"]] = vb.build_nat(os.path.join(VERIF, "harness", u["harness"]), u["groups"], u.get("exclude", ()))
                except vb.BuildError as ex:
                    nat_err.append(str(ex))
    if not a.no_native:
        natthread = threading.Thread(target=natbuild)
        natthread.start()
    work.sort(key=lambda w: -w[2].get("jobs", 1) * w[2]["secs"][0])
    with ThreadPoolExecutor(8) as ex:
        futs = [(u, ex.submit(run_entry, pid, bc, e, tier, tmpdir, slots, a.scale)) for u, bc, e in work]
        for u, f in futs:
            r = f.result()
            results.append((u, r))
            if "error" in r:
                log("%-34s ENGINE ERROR %s" % (r["entry"]["entry"], r["error"]))
            else:
                log("%-34s paths %d killed %d instrs %d queries %d (sat %d unsat %d unknown %d) solver %.1fs wall %.1fs%s%s" % (
                    r["entry"]["entry"], r["paths"], r["killed"], r["instrs"], r["queries"], r["q_sat"], r["q_unsat"], r["q_unknown"], r["solver_s"], r["wall"],
                    " VIOLATIONS %d" % len(r["violations"]) if r["violations"] else "", " INCOMPLETE %s" % r["incomplete"] if r["incomplete"] else ""))
    if natthread:
        natthread.join()
        if nat_err:
            raise vb.BuildError(nat_err[0])
    errors, viols, known_hit, unrepro = [], [], {}, []
    known = findings(pid)
    validated = 0
    sample_out = []
    outdir = os.path.join(vb.BUILD, "replay", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)

    def match_known(e, kind, msg, loc):
        for k in known:
            m = k["match"]
            if m.get("entry") and m["entry"] != e["entry"]: continue
            if m.get("kind") and m["kind"] != kind: continue
            if m.get("msg") and m["msg"] not in msg: continue
            if m.get("loc") and not re.search(m["loc"], loc): continue
            return k
        return None

    nviol = 0
    for u, r in results:
        e = r["entry"]
        name = e["entry"]
        if "error" in r:
            errors.append("%s: %s" % (name, r["error"]))
            continue
        exe = nat.get(u["harness"])
        for n, v in enumerate(r["violations"]):
            k = match_known(e, v["kind"], v["msg"], v["loc"] + "\n" + v["stack"])
            status, detail = "not replayed", ""
            if exe and not e.get("threads"):
                for fill in (None, 0, 255, 190):
                    rc, out = replay(exe, e, tier, v["inputs"], tmpdir, "v%d" % n, fill)
                    detail = out[-3000:]
                    if failed_natively(rc):
                        status = "reproduced natively (exit %s)" % rc
                        break
                    status = "NOT reproduced natively (exit %s)" % rc
            elif e.get("threads"):
                status = "schedule counterexample of the compiled code (deterministic in the engine)"
                try:
                    tsan = vb.build_nat(os.path.join(VERIF, "harness", u["harness"]), u["groups"], u.get("exclude", ()), san="thread")
                    for i in range(10):
                        rc, out = replay(tsan, e, tier, v["inputs"], tmpdir, "t%d_%d" % (n, i))
                        if failed_natively(rc) and (rc == 1 or rc == "timeout" or "WARNING: ThreadSanitizer" in out):
                            detail = out[-6000:]
                            status = "reproduced natively with ThreadSanitizer (exit %s)" % rc
                            break
                except Exception as ex:
                    status += "; no native run: %s" % str(ex)[:200]
            if status.startswith("NOT"):
                unrepro.append("%s: %s: %s at %s: %s" % (name, v["kind"], v["msg"], v["loc"], status))
            rec = dict(property=pid, entry=name, harness=u["harness"], status=status, kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"].split("\n"),
                       schedule=v["sched"], inputs=v["inputs"], native_output=detail,
                       how="SYMX_REPLAY=<inputs> <harness binary> %s, built by lib/vbuild.py build_nat" % name)
            nviol += 1
            path = os.path.join(outdir, "%s_%d.json" % (name, n))
            json.dump(rec, open(path, "w"), indent=1)
            if status.startswith("NOT"):
                continue
            if k:
                known_hit[k["id"]] = k
            else:
                viols.append((path, rec))
        # the encoding is validated by running the sampled assignments against the native build of the same sources
        if exe and not e.get("no_replay_samples"):
            items = sorted(r["samples"].items())
            lim = 12 if tier == "quick" else 40
            for n, (lab, s) in enumerate(items[:lim]):
                if e.get("threads") and n >= 3:
                    break
                rc, out = replay(exe, e, tier, s["inputs"], tmpdir, "s%d" % n)
                outs = [l.split(" ") for l in out.split("\n") if l.startswith("SYMX-OUT ")]
                have = [[x[1], x[2]] for x in outs]
                if rc == 0 and have[:256] == s["outs"]:
                    validated += 1
                elif rc == 0:
                    errors.append("%s: sample %s: native outputs differ from the engine's: %s / %s" % (name, lab, have[:8], s["outs"][:8]))
                elif failed_natively(rc):
                    msg = out.strip().split("\n")[0]
                    k = match_known(e, "native", out, "")
                    if k:
                        known_hit[k["id"]] = k
                        continue
                    path = os.path.join(outdir, "%s_sample_%d.json" % (name, n))
                    rec = dict(property=pid, entry=name, harness=u["harness"], status="native run of a solver-chosen input failed (exit %s)" % rc, kind="native", msg=msg, loc="", stack=[],
                               schedule="", inputs=s["inputs"], native_output=out[-3000:])
                    json.dump(rec, open(path, "w"), indent=1)
                    viols.append((path, rec))
                else:
                    errors.append("%s: sample %s does not replay natively (exit %s): %s" % (name, lab, rc, out[-300:]))
        for lab, s in list(r["samples"].items())[:2]:
            sample_out.append(dict(entry=name, label=lab, inputs=[dict(name=i["name"], hex=i["hex"]) for i in s["inputs"]][:40]))
        if not r["violations"]:
            for lab in e.get("reach", ()):
                if r["reach"].get(lab, 0) == 0:
                    errors.append("%s: VACUOUS: label '%s' was never reached (incomplete: %s)" % (name, lab, r["incomplete"]))
            if r["paths"] == 0:
                errors.append("%s: VACUOUS: no path completed (incomplete: %s)" % (name, r["incomplete"]))
            if not r["assertions"]:
                errors.append("%s: VACUOUS: no assertion evaluated" % name)
    ok = [r for _, r in results if "error" not in r]
    inc = {}
    for r in ok:
        for k, v in r["incomplete"].items():
            inc.setdefault(r["entry"]["entry"], {})[k] = v
    funcs = sorted(set(f for r in ok for f in r["functions"]))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "model_checking"),
              coverage=dict(
                  states=sum(r["paths"] for r in ok), transitions=sum(r["instrs"] for r in ok), traces_validated_against_impl=validated,
                  exhaustive=not inc and not errors,
                  not_exhausted=inc,
                  killed_paths=sum(r["killed"] for r in ok),
                  queries=sum(r["queries"] for r in ok), queries_sat=sum(r["q_sat"] for r in ok), queries_unsat=sum(r["q_unsat"] for r in ok), queries_unknown=sum(r["q_unknown"] for r in ok),
                  solver_s=round(sum(r["solver_s"] for r in ok), 2),
                  assertions_evaluated=sum(sum(r["assertions"].values()) for r in ok),
                  assertion_texts=sorted(set(m for r in ok for m in r["assertions"])),
                  scheduling_points=sum(r["schedpoints"] for r in ok),
                  bounds={e["entry"]: e.get("bounds", "") for _, r in results for e in [r["entry"]]},
                  parameters={r["entry"]["entry"]: r["entry"].get("params", ({}, {}))[0 if tier == "quick" else 1] for r in ok},
                  entries={r["entry"]["entry"]: dict(paths=r["paths"], instrs=r["instrs"], queries=r["queries"], wall_s=round(r["wall"], 1)) for r in ok},
                  functions_encoded=[f.replace("|", "  ") for f in funcs],
                  n_functions_encoded=len(funcs),
                  solver="z3 (libz3), QF_BV / QF_BVFP",
                  samples=sample_out[:30],
                  unreproduced=unrepro,
                  known_findings=sorted(known_hit)),
              assumptions=P.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - T0, 1), violations=len(viols))
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d paths, %d queries, %d native replays agreed, %d functions encoded" % (pid, tier, ev["coverage"]["states"], ev["coverage"]["queries"], validated, len(funcs)))
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for x in unrepro:
        print("UNREPRODUCED:", x)
    for x in errors:
        print("CHECK-ERROR:", x)
    if viols:
        for p, rec in viols:
            print("  %s: %s: %s at %s [%s]" % (rec["entry"], rec["kind"], rec["msg"], rec["loc"], rec["status"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        return 3
    # a counterexample that the real code does not reproduce is not a violation; it is in the evidence
    return 0


if __name__ == "__main__":
    main()
