"""Runs the contracts of one property, decides the verdict, writes the evidence."""
import argparse
import importlib
import importlib.util
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time
import traceback

NPROC = 8


def load_extension(repo, scratch):
    """compile gdspy.clipper from the current tree into the scratch directory and preload it"""
    src = os.path.join(repo, "gdspy", "clipper.cpp")
    out = os.path.join(scratch, "clipper" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["g++", "-O1", "-w", "-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], "-I" + os.path.dirname(src), src, "-o", out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise RuntimeError("the extension does not compile:\n" + r.stdout[-3000:])
    spec = importlib.util.spec_from_file_location("gdspy.clipper", out)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["gdspy.clipper"] = mod
    spec.loader.exec_module(mod)
    return mod


def replay_record(c, ctx, detail, seed, source):
    return {"contract": c.name, "targets": c.targets, "failed": detail[:3000], "seed": seed, "found_by": source, "inputs": ctx.dump()}


class ConcResult(object):
    def __init__(self):
        self.runs = self.ok = self.skips = 0
        self.checks = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.errors = []


def run_samples(C, c, seeds, limit, res, source="bounded sampling"):
    t0 = time.time()
    for s in seeds:
        if time.time() - t0 > limit:
            break
        out, detail, ctx = C.run_conc(c, s)
        res.runs += 1
        if out == "skip":
            res.skips += 1
            continue
        res.checks += ctx.checks
        d = ctx.dump()
        key = json.dumps(d, sort_keys=True, default=str)
        if ctx.checks:
            res.distinct.add(hash(key))
        if len(res.samples) < 2:
            res.samples.append({"contract": c.name, "seed": s, "inputs": dict(list(d.items())[:12]), "checks": ctx.checks, "outcome": out})
        if out == "ok":
            res.ok += 1
        elif out == "error":
            res.errors.append(detail)
        else:
            res.violations.append(replay_record(c, ctx, detail, s, source))
            if len(res.violations) >= 3:
                break


def replay_obligation(C, c, ob, base, tries, limit):
    """look for an input of the real code on which the contract fails, led by the counterexample"""
    t0 = time.time()
    model = C.Model(ob.model) if ob.model is not None else None
    for k in range(tries):
        if time.time() - t0 > limit:
            return None
        for m, ch in (((model, ob.choices),) if model is None else ((model, ob.choices), (None, ob.choices))):
            out, detail, ctx = C.run_conc(c, base + k, model=m, choices=ch or None)
            if out == "violated":
                r = replay_record(c, ctx, detail, base + k, "counterexample of obligation %r" % ob.name)
                r["obligation"] = {"name": ob.name, "path": ob.path, "detail": ob.detail[:1500]}
                return r
    return None


def job(C, c, tier, seed, baseline):
    """everything for one contract; returns a plain dict"""
    thorough = tier == "thorough"
    res = ConcResult()
    out = {"contract": c.name, "targets": c.targets, "sym": c.sym, "note": c.note, "status": "bounded", "why": "", "obligations": 0, "discharged": 0, "backends": {}, "solver_secs": 0.0, "queries": 0, "paths": 0, "covers": {}, "failed": [], "violation": None, "noinput": None, "functions": []}
    t0 = time.time()
    n = c.samples * (25 if thorough else 1)
    base = seed * 1000003
    run_samples(C, c, range(base, base + n), 240 if thorough else c.limit, res)
    if res.violations:
        out["violation"] = res.violations[0]
    if c.sym:
        r = C.prove_contract(c, c.budget * (4 if thorough else 1))
        eng = r["engine"]
        out["status"], out["why"] = r["status"], r["why"]
        obs = eng.obligations
        out["obligations"] = len(obs)
        out["discharged"] = sum(o.status == "proved" for o in obs)
        for o in obs:
            if o.status == "proved":
                out["backends"][o.backend] = out["backends"].get(o.backend, 0) + 1
        out["solver_secs"], out["queries"], out["paths"] = round(eng.solver_secs, 3), eng.queries, eng.paths_done
        out["covers"] = dict(eng.covers)
        out["functions"] = sorted(eng.interpreted)
        bad = [o for o in obs if o.status != "proved"]
        out["failed"] = [{"name": o.name, "status": o.status, "path": o.path, "detail": o.detail[:600]} for o in bad[:8]]
        if out["status"] == "done" and (not obs or not any(eng.covers.values())):
            out["status"] = "vacuous"
        elif out["status"] == "done":
            out["status"] = "proved" if not bad else "undecided"
        # failed obligations: replay on the real code
        if bad and not out["violation"]:
            seen = {}
            for o in bad:
                k = seen.get(o.name, 0)
                if k >= 3 or len(seen) > 12:
                    continue
                seen[o.name] = k + 1
                v = replay_obligation(C, c, o, base + 7000, 12, 15)
                if v is not None:
                    out["violation"] = v
                    break
        if out["status"] != "proved" and not out["violation"]:
            # bounded stand-in: more samples
            run_samples(C, c, range(base + n, base + n + 6 * c.samples), 3 * c.limit, res)
            if res.violations:
                out["violation"] = res.violations[0]
        if bad and not out["violation"]:
            for o in bad:
                if o.status == "refuted" and not o.abstract and o.backend == "z3" and not any(a in C.UF_INCOMPLETE for a in o.apps) and baseline.get(c.name) == "proved":
                    out["noinput"] = {"contract": c.name, "targets": c.targets, "obligation": o.name, "path": o.path, "detail": o.detail[:3000], "counterexample": str(o.model)[:6000] if o.model is not None else None}
                    break
    out["samples"] = {"runs": res.runs, "ok": res.ok, "skipped": res.skips, "checks": res.checks, "distinct": len(res.distinct), "shown": res.samples, "errors": len(res.errors), "error": res.errors[:1]}
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def child(fn, path):
    def body():
        try:
            r = fn()
        except BaseException as ex:
            r = {"crash": "%r\n%s" % (ex, traceback.format_exc()[-3000:])}
        with open(path + ".tmp", "wb") as f:
            pickle.dump(r, f)
        os.replace(path + ".tmp", path)
    t = threading.Thread(target=body)
    t.start()
    t.join()


def run_jobs(jobs, scratch):
    """jobs: list of (key, fn, limit seconds); forked children, NPROC at a time"""
    pending = list(jobs)
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < NPROC:
            key, fn, limit = pending.pop(0)
            path = os.path.join(scratch, "r_%s" % key)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    log = os.open(os.path.join(scratch, "log_%s" % key), os.O_WRONLY | os.O_CREAT)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    child(fn, path)
                finally:
                    os._exit(0)
            running[pid] = (key, time.time() + limit, path)
        time.sleep(0.02)
        for pid in list(running):
            key, dead, path = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0 and time.time() > dead:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                results[key] = {"crash": "time limit"}
                del running[pid]
            elif p:
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        results[key] = pickle.load(f)
                else:
                    results[key] = {"crash": "process ended with status %r" % (st,), "signal": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0}
                del running[pid]
    return results


ASSUMPTIONS = [
    "floats are read as real numbers, ints as mathematical integers (rounding and overflow are covered by the native samples only)",
    "trusted models of Python builtins, numpy, struct and copy in vc/models.py; sin, cos, sqrt, atan2, exp are uninterpreted functions with the axioms in vc/core.py",
    "the interpreter of vc/interp.py implements the Python subset used by the functions under contract (cross-checked natively on every run)",
    "generators are evaluated eagerly; warnings are ignored; z3 is trusted",
]


def main(argv, repo, verif):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--contract", default="")
    ap.add_argument("--write-baseline", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    scratch = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        return run(pid, a, seed, t0, scratch, repo, verif)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, a, seed, t0, scratch, repo, verif):
    load_extension(repo, scratch)
    from vc import interp
    interp.DIRS += [os.path.join(repo, "gdspy") + "/", os.path.join(verif, "contracts") + "/"]
    import gdspy
    assert os.path.dirname(os.path.abspath(gdspy.__file__)) == os.path.join(os.path.abspath(repo), "gdspy"), gdspy.__file__
    from vc import contract as C
    importlib.import_module("contracts." + pid.lower())
    cs = [c for (p, n), c in C.CONTRACTS.items() if p == pid and a.contract in n]
    C.SCRATCH = os.path.join(scratch, "work")
    os.mkdir(C.SCRATCH)
    blpath = os.path.join(verif, "baseline", pid + ".json")
    baseline = json.load(open(blpath)) if os.path.exists(blpath) else {}
    findings = []
    kf = os.path.join(verif, "known_findings.jsonl")
    if os.path.exists(kf):
        findings = [json.loads(l) for l in open(kf) if l.strip()]
    findings = [f for f in findings if f["property"] == pid and f.get("status") == "open"]
    thorough = a.tier == "thorough"
    jobs = []
    for c in sorted(cs, key=lambda c: -(c.budget if c.sym else 0)):
        lim = (c.budget * (4 if thorough else 1) if c.sym else 0) + (300 if thorough else 100)
        jobs.append((c.name, (lambda c=c: job(C, c, a.tier, seed, baseline)), lim))
    results = run_jobs(jobs, scratch)
    by = {c.name: c for c in cs}
    repdir = os.path.join(verif, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    violations, known, errors = [], [], []
    for name in sorted(results):
        r = results[name]
        if "crash" in r:
            errors.append((name, r["crash"]))
            if r.get("signal") in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
                pass
            continue
        v = r["violation"]
        if v is not None:
            f = [f for f in findings if f["contract"] == name and f["check"] in v["failed"]]
            if f:
                known.append((f[0], v))
            else:
                violations.append((name, v, False))
        elif r["noinput"] is not None:
            violations.append((name, r["noinput"], True))
    # natural order: replayed violations first
    lines = []
    violations.sort(key=lambda x: x[2])
    for name, v, noinput in violations:
        path = os.path.join(repdir, "%s-%s.json" % (pid, name))
        v = dict(v, property=pid, command="python3-vt check.py %s --contract %s" % (pid, name))
        if noinput:
            v["note"] = "no-failing-input-found: the named obligation, proved on the pinned tree, is refuted; verifier output above"
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, " no-failing-input-found" if noinput else ""))
    for f, v in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    ev = evidence(pid, a, seed, results, by, violations, errors, known, time.time() - t0)
    with open(os.path.join(verif, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.write_baseline and not a.contract:
        os.makedirs(os.path.dirname(blpath), exist_ok=True)
        with open(blpath, "w") as f:
            json.dump({n: r.get("status", "crash") for n, r in sorted(results.items())}, f, indent=1, sort_keys=True)
            f.write("\n")
    for name in sorted(results):
        r = results[name]
        if "crash" in r:
            print("%-40s CRASH %s" % (name, r["crash"][:1500]))
        else:
            print("%-40s %-11s obligations %d/%d paths %d samples %d/%d %.1fs %s" % (name, r["status"], r["discharged"], r["obligations"], r["paths"], r["samples"]["ok"], r["samples"]["runs"], r["wall_s"], r["why"][:300]))
            for o in r["failed"][:3]:
                print("      %s %s [%s] %s" % (o["status"], o["name"], o["path"], o["detail"][:300].replace("\n", " ")))
            if r["samples"]["errors"]:
                print("      %d contract errors: %s" % (r["samples"]["errors"], r["samples"]["error"][0][-800:]))
            if r["violation"]:
                print("      violated: %s" % r["violation"]["failed"][:600])
    print("property %s: obligations %d discharged %d, samples %d, %.1fs" % (pid, ev["coverage"]["obligations"], ev["coverage"]["discharged"], ev["coverage"]["evaluations"], time.time() - t0))
    for l in lines:
        print(l)
    if lines:
        return 1
    if not results or (ev["coverage"]["obligations"] == 0 and ev["coverage"]["evaluations"] == 0):
        print("nothing was checked")
        return 3
    return 0


def evidence(pid, a, seed, results, by, violations, errors, known, wall):
    ok = {n: r for n, r in results.items() if "crash" not in r}
    nob = sum(r["obligations"] for r in ok.values())
    dis = sum(r["discharged"] for r in ok.values())
    backends = {}
    for r in ok.values():
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    proved = sorted(n for n, r in ok.items() if r["status"] == "proved")
    level = "proof" if nob else "exploration"
    cov = {
        "obligations": nob,
        "discharged": dis,
        "checker_cmd": "python3-vt check.py %s --tier %s" % (pid, a.tier),
        "trusted_base": ASSUMPTIONS,
        "backends": backends,
        "solver_secs": round(sum(r["solver_secs"] for r in ok.values()), 2),
        "queries": sum(r["queries"] for r in ok.values()),
        "paths": sum(r["paths"] for r in ok.values()),
        "contracts_proved": proved,
        "contracts_undecided": sorted("%s: %s %s" % (n, r["status"], r["why"][:200]) for n, r in ok.items() if by[n].sym and r["status"] != "proved"),
        "contracts_bounded": sorted("%s%s" % (n, " (%s)" % by[n].note if by[n].note else "") for n, r in ok.items() if not by[n].sym),
        "functions_under_contract": sorted({t for n in proved for t in by[n].targets}),
        "functions_bounded_only": sorted({t for n in ok for t in by[n].targets} - {t for n in proved for t in by[n].targets}),
        "functions_executed_symbolically": sorted({f for n in proved for f in ok[n]["functions"]}),
        "evaluations": sum(r["samples"]["runs"] for r in ok.values()),
        "distinct_nontrivial": sum(r["samples"]["distinct"] for r in ok.values()),
        "rule": "native runs of the same contracts on the real package with generated inputs; non-trivial: not skipped by a precondition and at least one check evaluated; distinct: by drawn inputs, per contract",
        "samples": [s for r in list(ok.values())[:6] for s in r["samples"]["shown"][:1]],
        "checks_evaluated_natively": sum(r["samples"]["checks"] for r in ok.values()),
        "crashed_jobs": [{"contract": n, "why": w[:400]} for n, w in errors],
        "per_contract": {n: {k: r[k] for k in ("status", "obligations", "discharged", "paths", "solver_secs", "wall_s")} for n, r in sorted(ok.items())},
    }
    return {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations)}
