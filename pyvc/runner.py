"""Runs the contracts of one property: deductive exploration of every contract on
the instrumented real code, replay of each counterexample on the untouched real
code, cross-check of every proved path against CPython, and the labelled bounded
stand-ins (seeded sweeps / exhaustive enumerations) on the real code."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing.connection import wait as mpwait

from . import loader, concrete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
YANG = os.path.join(VERIF, "yang")
# the bindings a harness can ask for: name -> (modules, plugin flags)
MODELS = {
    "va": (["va.yang", "vc.yang"], ["--presence"]),
    "vax": (["va.yang", "vc.yang"], ["--presence", "--use-xpathhelper"]),
    "vs": (["vs.yang"], ["--presence"]),
    "vsd": (["vs.yang"], ["--presence", "--split-class-dir"]),
    "vso": (["vs.yang"], ["--presence", "--use-xpathhelper", "--use-extmethods", "--build-rpcs", "--build-notifications", "--interesting-extension", "vb"]),
    "vad": (["va.yang", "vc.yang"], ["--presence", "--split-class-dir"]),
    "vao": (["va.yang", "vc.yang"], ["--presence", "--use-xpathhelper", "--use-extmethods", "--build-rpcs", "--build-notifications", "--interesting-extension", "vb"]),
}


class H:
    """one contract (or bounded stand-in).

    fn(E, M)     specification over the real code, runs in both modes
    sym          discharge symbolically (all inputs); otherwise bounded only
    conc         number of concrete executions per quick run
    models       bindings needed"""

    def __init__(self, fn, sym=True, conc=200, models=(), covers=(), sym_s=40, conc_s=25, max_paths=6000, unroll=3, x=8, enum=None, check_timeout=8000, shards=1):
        self.fn, self.name = fn, fn.__name__
        self.sym, self.conc, self.models = sym, conc, tuple(models)
        self.sym_s, self.conc_s, self.max_paths, self.unroll, self.x = sym_s, conc_s, max_paths, unroll, x
        self.enum = enum
        self.covers = tuple(covers)
        self.check_timeout = check_timeout
        self.shards = shards


class M(loader.World):
    def __init__(self, symbolic, paths):
        loader.World.__init__(self, symbolic)
        self.paths = paths

    def b(self, name):
        return self.bindings(name, self.paths[name])


def jsonable(x):
    if isinstance(x, bytes):
        return {"__bytes__": x.hex()}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, str, bool, float)) or x is None:
        return x
    return str(x)


def unjson(x):
    if isinstance(x, dict):
        if set(x) == {"__bytes__"}:
            return bytes.fromhex(x["__bytes__"])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


# ------------------------------------------------------------------ workers
def repo_fault(tb):
    """does the exception come out of the code under test (rather than the harness)?"""
    return "/pyangbind/" in tb or "/bindings/" in tb


def violation_of(h, status, E, detail):
    return {
        "harness": h.name, "obligation": detail if status == "violation" else "no-unexpected-exception",
        "inputs": jsonable(E.inputs), "detail": None if status == "violation" else detail, "found_by": None,
    }


def classify(h, r, E, detail):
    """-> violation dict or None, error text or None"""
    if r == "violation":
        return violation_of(h, r, E, detail), None
    if r == "error":
        if repo_fault(detail):
            return violation_of(h, r, E, detail), None
        return None, detail
    return None, None


def task_sym(h, worlds, deadline, opts):
    from . import engine

    S = engine.Sym(worlds[True], max_paths=h.max_paths * opts.get("scale", 1), deadline=deadline, unroll=h.unroll, check_timeout=h.check_timeout)
    S.shard = opts.get("shard")
    S.explore(h.fn)
    out = {
        "harness": h.name, "paths": S.paths, "done": S.paths_done, "infeasible": S.infeasible, "cut": S.paths_cut,
        "unsupported": sorted(set(S.unsupported))[:20], "n_unsupported": len(S.unsupported), "incomplete": S.incomplete,
        "functions": S.functions, "assumptions": sorted(S.assumptions), "bounded": sorted(S.bounded_notes),
        "solver_time": S.solver_time, "solver_calls": S.solver_calls, "obls": {}, "violations": [], "errors": [], "mismatch": [],
        "refuted_unreplayed": [],
    }
    # counterexamples: replayed on the real code
    for c in S.counterexamples:
        r, E, d = concrete.run_concrete(h.fn, worlds[False], c["inputs"], random.Random(1))
        v, err = classify(h, r, E, d)
        if v:
            v["found_by"] = "counterexample of obligation %s" % c["obligation"]
            out["violations"].append(v)
        elif err:
            out["errors"].append(err)
        else:
            c = dict(c)
            c["inputs"] = jsonable(c["inputs"])
            c["replay"] = r
            out["refuted_unreplayed"].append(c)
    # every completed path: one model, executed by CPython
    pm = S.path_models
    if len(pm) > opts.get("xcheck", 150):
        rnd = random.Random(opts["seed"])
        pm = rnd.sample(pm, opts.get("xcheck", 150))
    out["xchecked"] = 0
    for inputs, obs in pm:
        if time.time() > deadline + 20:
            break
        r, E, d = concrete.run_concrete(h.fn, worlds[False], inputs, random.Random(1))
        out["xchecked"] += 1
        v, err = classify(h, r, E, d)
        if v:
            v["found_by"] = "path model"
            out["violations"].append(v)
        elif err:
            out["errors"].append(err)
        elif r == "discard":
            out["mismatch"].append({"inputs": jsonable(inputs), "why": "discarded by CPython run"})
        elif obs and not obs_equal(obs, E.obs):
            out["mismatch"].append({"inputs": jsonable(inputs), "why": "observations differ", "sym": repr(obs)[:300], "real": repr(E.obs)[:300]})
    out["covers"] = sorted(n[6:] for n, o in S.obls.items() if n.startswith("cover:") and o.proved)
    for n, o in S.obls.items():
        if n.startswith("cover:"):
            continue
        out["obls"][n] = dict(
            instances=o.instances, proved=o.proved, refuted=o.refuted, unknown=o.unknown, time=round(o.time, 4), backends=o.backends, abstract=o.abstract,
        )
    return out


def obs_equal(a, b):
    """symbolic observations that are concrete have to agree with CPython's"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if isinstance(p, (bool, int, str, type(None))) and isinstance(q, (bool, int, str, type(None))) and type(p) in (bool, int, str, type(None)):
                if p != q:
                    return False
    return True


def merge_sym(results):
    """the shards of one contract as one result"""
    out, first = [], {}
    for kind, h, r, err in results:
        if r is None or h.name not in first:
            out.append((kind, h, r, err))
            if r is not None:
                first[h.name] = r
            continue
        a = first[h.name]
        for k in ("paths", "done", "infeasible", "cut", "n_unsupported", "solver_time", "solver_calls", "xchecked"):
            a[k] += r[k]
        for k in ("unsupported", "assumptions", "bounded", "covers"):
            a[k] = sorted(set(a[k]) | set(r[k]))
        for k in ("violations", "errors", "mismatch", "refuted_unreplayed"):
            a[k] += r[k]
        a["incomplete"] = a["incomplete"] or r["incomplete"]
        for f, n in r["functions"].items():
            a["functions"][f] = a["functions"].get(f, 0) + n
        for n, o in r["obls"].items():
            t = a["obls"].setdefault(n, dict(o, instances=0, proved=0, refuted=0, unknown=0, time=0, backends={}, abstract=False))
            for k in ("instances", "proved", "refuted", "unknown", "time"):
                t[k] += o[k]
            t["abstract"] = t["abstract"] or o["abstract"]
            for k, v in o["backends"].items():
                t["backends"][k] = t["backends"].get(k, 0) + v
    # a contract one of whose shards is missing was not discharged
    for kind, h, r, err in results:
        if r is None and h.name in first:
            first[h.name]["incomplete"] = "a worker failed: %s" % (str(err).strip().splitlines() or ["?"])[-1]
    return out


def task_conc(h, worlds, deadline, opts):
    out = {"harness": h.name, "evaluations": 0, "discarded": 0, "distinct": [], "violations": [], "errors": [], "proves": 0, "names": [], "sample": None, "short": None}
    seen = set()
    names = set()
    lo, hi = opts["range"]
    for i in range(lo, hi):
        if time.time() > deadline:
            out["short"] = "time limit after %d of %d" % (i - lo, hi - lo)
            break
        rng = random.Random("%s/%s/%d" % (opts["seed"], h.name, i))
        given = None
        if h.enum is not None:
            given = opts["enum"][i]
        r, E, d = concrete.run_concrete(h.fn, worlds[False], given, rng)
        if r == "discard":
            out["discarded"] += 1
            continue
        out["evaluations"] += 1
        out["proves"] += E.proves
        names |= E.names
        k = hashlib.md5(repr(sorted(E.inputs.items())).encode()).hexdigest()[:12]
        if k not in seen and E.proves:
            seen.add(k)
            if out["sample"] is None:
                out["sample"] = jsonable(E.inputs)
        v, err = classify(h, r, E, d)
        if v:
            v["found_by"] = "bounded sweep"
            out["violations"].append(v)
            if len(out["violations"]) >= 3:
                break
        elif err:
            out["errors"].append(err)
            if len(out["errors"]) >= 3:
                break
    out["distinct"] = sorted(seen)
    out["names"] = sorted(names)
    return out


def _child(conn, fn, h, worlds, deadline, opts):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(3000)
        with open(os.devnull, "w") as nul:
            so, se = sys.stdout, sys.stderr
            sys.stdout = nul
            if not os.environ.get("VERIF_DEBUG"):
                sys.stderr = nul
            try:
                r = fn(h, worlds, deadline, opts)
            finally:
                sys.stdout, sys.stderr = so, se
        conn.send(("ok", r))
    except BaseException:
        try:
            conn.send(("crash", traceback.format_exc()))
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, worlds, njobs=8):
    """tasks: (kind, fn, h, seconds, opts) -> list of (kind, h, result|None, error)"""
    ctx = mp.get_context("fork")
    pending = list(tasks)
    live = {}
    results = []
    while pending or live:
        while pending and len(live) < njobs:
            kind, fn, h, secs, opts = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, h, worlds, time.time() + secs, opts))
            p.start()
            b.close()
            live[a] = (p, kind, h, time.time() + secs + 60)
        ready = mpwait(list(live), timeout=0.5)
        now = time.time()
        for c in list(live):
            p, kind, h, dl = live[c]
            if c in ready:
                try:
                    st, r = c.recv()
                except EOFError:
                    st, r = "crash", "worker died"
                p.join()
                c.close()
                del live[c]
                results.append((kind, h, r if st == "ok" else None, None if st == "ok" else r))
            elif now > dl:
                p.kill()
                p.join()
                c.close()
                del live[c]
                results.append((kind, h, None, "timeout"))
    return results


# ------------------------------------------------------------------- main
def load_prop(pid):
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("harness." + f[:-3])
    raise SystemExit("no harness for %s" % pid)


def known_findings(pid):
    """ids listed in the committed file for this property"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                kid, _, what = rest.partition(" ")
                out[kid.split("=", 1)[1]] = what
    return out


def build_models(names, tmp, extra=None):
    paths = {}
    for n in sorted(set(names)):
        d = os.path.join(tmp, "bindings", n)
        os.makedirs(d, exist_ok=True)
        files, flags = MODELS[n]
        paths[n] = loader.generate([os.path.join(YANG, f) for f in files], flags, d, "%s.py" % n, path=YANG)
    return paths


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--nosym", action="store_true")
    ap.add_argument("--noconc", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    mod = load_prop(pid)
    loader.preload()
    hs = [h for h in mod.HARNESSES if not a.only or h.name in a.only.split(",")]
    tmp = tempfile.mkdtemp(prefix="pyvc-%s-" % pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        return _main(a, pid, seed, thorough, mod, hs, tmp, evdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(evdir, pid, k, v):
    p = os.path.join(evdir, "replay-%s-%d.json" % (pid, k))
    v = dict(v)
    v["property"] = pid
    v["how"] = "cd /verif && /opt/venv/bin/python -B check.py %s --replay %s" % (pid, p)
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def _main(a, pid, seed, thorough, mod, hs, tmp, evdir, t0):
    for f in os.listdir(evdir):
        if f.startswith("replay-%s-" % pid) and not a.replay:
            os.unlink(os.path.join(evdir, f))
    need = set()
    for h in hs:
        need |= set(h.models)
    genlog = []
    try:
        paths = build_models(need, tmp)
        if hasattr(mod, "prepare"):
            paths.update(mod.prepare(os.path.join(tmp, "bindings"), seed, thorough) or {})
        worlds = {False: M(False, paths)}
        for n in sorted(paths):
            if paths[n].endswith(".py") and os.path.exists(paths[n]):
                worlds[False].b(n)
    except Exception as e:
        # valid models no longer yield loadable bindings: nothing the property says can hold
        if not isinstance(e, loader.GenError) and not repo_fault(traceback.format_exc()):
            raise
        if "that pyang has found errors with" in str(e):
            # pyang refuses a module of ours: a fault of the check, which then has not decided anything
            write_evidence(evdir, pid, a, seed, mod, [], [], [], ["the generated modules are not valid: " + str(e)[-1500:]], [], t0, {})
            print("%s: undecided, pyang refuses a generated module" % pid)
            return 0
        p = write_replay(evdir, pid, 0, {"obligation": "bindings-generate", "detail": traceback.format_exc()})
        write_evidence(evdir, pid, a, seed, mod, [], [], [{"obligation": "bindings-generate"}], [], [], t0, {})
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if a.replay:
        v = json.load(open(a.replay))
        for h in mod.HARNESSES:
            if h.name == v.get("harness"):
                r, E, d = concrete.run_concrete(h.fn, worlds[False], unjson(v["inputs"]), random.Random(1))
                print(r, d)
                return 1 if r in ("violation", "error") else 0
        print("nothing to replay")
        return 2
    symh = [h for h in hs if h.sym and not a.nosym]
    if symh:
        worlds[True] = M(True, paths)
        try:
            worlds[True].yt, worlds[True].ser, worlds[True].pj
            for n in sorted({m for h in symh for m in h.models}):
                worlds[True].b(n)
        except BaseException:
            genlog.append("instrumented load failed: " + traceback.format_exc()[-1500:])
            symh = []
    scale = 8 if thorough else 1
    tasks = []
    for h in symh:
        for i in range(h.shards):
            tasks.append(("sym", task_sym, h, h.sym_s * (6 if thorough else 1), {
                "seed": seed, "scale": 4 if thorough else 1, "xcheck": (1500 if thorough else 150) // h.shards,
                "shard": (i, h.shards) if h.shards > 1 else None}))
    if not a.noconc:
        for h in hs:
            enum = None
            n = h.conc * (h.x if thorough else 1)
            if h.enum is not None:
                enum = list(h.enum(thorough))
                n = len(enum)
            if not n:
                continue
            k = min(8 if thorough else 4, max(1, n // 40))
            step = (n + k - 1) // k
            for i in range(0, n, step):
                tasks.append(("conc", task_conc, h, h.conc_s * (6 if thorough else 1), {"seed": seed, "range": (i, min(i + step, n)), "enum": enum}))
    results = run_tasks(tasks, worlds)
    results = [r for r in results if r[0] != "sym"] + merge_sym([r for r in results if r[0] == "sym"])
    sym = [r for r in results if r[0] == "sym"]
    conc = [r for r in results if r[0] == "conc"]
    violations, undecided, soft = [], list(genlog), []
    for kind, h, r, err in results:
        if r is None:
            undecided.append("%s of %s: %s" % (kind, h.name, str(err).strip().splitlines()[-1] if err else "?"))
            if a.v:
                print(kind, h.name, "CRASH", err)
            continue
        violations += r["violations"]
        for e in r["errors"][:2]:
            undecided.append("%s of %s: harness error %s" % (kind, h.name, e.strip().splitlines()[-1]))
            if a.v:
                print(e)
        if kind == "sym":
            if r["incomplete"]:
                undecided.append("%s: %s" % (h.name, r["incomplete"]))
            for cv in h.covers:
                if cv not in r["covers"]:
                    undecided.append("%s: cover %s not reached: its obligations may be vacuous" % (h.name, cv))
            for u in r["unsupported"]:
                undecided.append("%s: outside the engine's subset: %s" % (h.name, u))
            for m in r["mismatch"][:3]:
                undecided.append("%s: engine/CPython mismatch %s" % (h.name, json.dumps(m)[:400]))
            for c in r["refuted_unreplayed"]:
                loop = c["obligation"].startswith("loop-")
                if c["abstract"] and not loop:
                    soft.append((h, c))
                else:
                    undecided.append("%s: obligation %s refuted by the solver, counterexample does not reproduce on CPython: %s" % (h.name, c["obligation"], json.dumps(c["inputs"])[:300]))
    # known findings
    known = known_findings(pid)
    kout = []
    for kid, (hname, inputs) in sorted(getattr(mod, "KNOWN", {}).items()):
        h = {x.name: x for x in getattr(mod, "KNOWN_H", [])}[hname]
        st, E, d = concrete.run_concrete(h.fn, worlds[False], inputs, random.Random(1))
        if st in ("violation", "error"):
            if kid in known:
                kout.append((kid, known[kid]))
            else:
                v = violation_of(h, st, E, d)
                v["found_by"] = "known-finding witness that is not listed"
                violations.append(v)
    lines = []
    rc = 0
    seen = set()
    for v in violations:
        key = (v["harness"], v["obligation"])
        if key in seen:
            continue
        seen.add(key)
        p = write_replay(evdir, pid, len(lines), v)
        lines.append("VIOLATION property=%s replay=%s" % (pid, p))
    if not violations:
        for h, c in soft:
            key = (h.name, c["obligation"])
            if key in seen:
                continue
            seen.add(key)
            p = write_replay(evdir, pid, len(lines), {"harness": h.name, "obligation": c["obligation"], "verifier_output": c, "note": "no failing input found"})
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    if lines:
        rc = 1
    ev = write_evidence(evdir, pid, a, seed, mod, sym, conc, violations or [c for _, c in soft], undecided, kout, t0, worlds)
    cov = ev["coverage"]
    if not lines and cov.get("obligations", 0) == 0 and cov.get("bounded", {}).get("evaluations", 0) == 0:
        print("no obligation was generated and nothing was executed")
        return 2
    for kid, what in kout:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, what))
    for l in lines[:20]:
        print(l)
    print("%s: %d/%d obligations discharged (%d instances), %d bounded evaluations, undecided %d, %.1fs" % (
        pid, cov["discharged"], cov["obligations"], cov["obligation_instances"], cov["bounded"]["evaluations"], len(undecided), time.time() - t0))
    if a.v:
        for n, o in sorted(cov["obligation_table"].items()):
            if not o["discharged"] or a.v > 1:
                print("  ", n, {k: o[k] for k in ("instances", "proved", "refuted", "unknown")})
        for u in undecided:
            print("   undecided:", u)
        for n, b in cov["bounded"]["harnesses"].items():
            print("   bounded:", n, b["evaluations"], b["discarded"], b["distinct"], b.get("cut", ""))
        for v in violations[:6]:
            print("   V:", json.dumps({k: v[k] for k in ("harness", "obligation", "inputs", "found_by")})[:400])
            if v["detail"]:
                print("      ", v["detail"].strip().splitlines()[-1][:300])
        for h, c in soft[:5]:
            print("   S:", h.name, json.dumps(c)[:800])
    return rc


def write_evidence(evdir, pid, a, seed, mod, sym, conc, violations, undecided, kout, t0, worlds):
    table = {}
    functions = {}
    assumptions = set(getattr(mod, "ASSUME", []))
    notes = set()
    paths = xch = 0
    st = 0.0
    sc = 0
    inst = 0
    incomplete = set()
    covers = []
    for _, h, r, err in sym:
        if r is None:
            incomplete.add(h.name)
            continue
        whole = not (r["incomplete"] or r["n_unsupported"] or r["mismatch"] or r["errors"] or set(h.covers) - set(r["covers"]))
        covers += ["%s/%s" % (h.name, c) for c in r["covers"]]
        if not whole:
            incomplete.add(h.name)
        for n, o in r["obls"].items():
            t = dict(o)
            inst += o["instances"]
            t["discharged"] = bool(o["instances"] and o["proved"] == o["instances"] and whole)
            table["%s/%s" % (h.name, n)] = t
        for f, k in r["functions"].items():
            functions[f] = functions.get(f, 0) + k
        assumptions |= set(r["assumptions"])
        notes |= set("%s: %s" % (h.name, b) for b in r["bounded"])
        paths += r["done"]
        xch += r["xchecked"]
        st += r["solver_time"]
        sc += r["solver_calls"]
    bh = {}
    dist = set()
    samples = []
    for _, h, r, err in conc:
        if r is None:
            continue
        b = bh.setdefault(h.name, {"evaluations": 0, "discarded": 0, "distinct": 0, "assertions": 0, "obligations_evaluated": [], "stands_in_for_proof": not h.sym or h.name in incomplete})
        b["evaluations"] += r["evaluations"]
        b["discarded"] += r["discarded"]
        b["distinct"] += len(r["distinct"])
        b["assertions"] += r["proves"]
        b["obligations_evaluated"] = sorted(set(b["obligations_evaluated"]) | set(r["names"]))
        if r["short"]:
            b["cut"] = r["short"]
        dist |= set((h.name, d) for d in r["distinct"])
        if r["sample"] is not None and len(samples) < 6 and not any(s["harness"] == h.name for s in samples):
            samples.append({"harness": h.name, "inputs": r["sample"]})
    disch = [n for n, t in table.items() if t["discharged"]]
    backends = {}
    for t in table.values():
        for k, v in t["backends"].items():
            backends[k] = backends.get(k, 0) + v
    level = getattr(mod, "LEVEL", "proof")
    ev_n = sum(b["evaluations"] for b in bh.values())
    cov = {
        "obligations": len(table), "discharged": len(disch), "obligation_instances": inst, "backends": backends,
        "checker_cmd": "/opt/venv/bin/python -B check.py %s --tier %s" % (pid, a.tier),
        "trusted_base": [
            "CPython 3.12 executes the instrumented module (class machinery, exceptions, iteration)",
            "pyvc engine and its models of int/str/bytes/Decimal/dict/regex (cross-checked per path against CPython)",
            "z3 4.x, cvc5 1.1.2",
        ],
        "functions_under_contract": sorted(functions),
        "paths_completed": paths, "path_models_executed_by_cpython": xch,
        "solver_time_s": round(st, 2), "solver_calls": sc,
        "obligation_table": table,
        "covers_reached": covers,
        "undecided": undecided,
        "engine_bounds": sorted(notes),
        "bounded": {
            "label": "bounded stand-in, never counted as proved", "evaluations": ev_n, "distinct_nontrivial": len(dist), "harnesses": bh,
        },
        "evaluations": ev_n, "distinct_nontrivial": len(dist),
        "rule": "seeded random inputs for each harness, run on the real modules; distinct input vectors that evaluated at least one obligation",
        "samples": samples or [{"harness": "none"}],
        "known_findings": [k for k, _ in kout],
        "explanation": getattr(mod, "__doc__", "") or "",
    }
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
        "assumptions": sorted(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    return ev
