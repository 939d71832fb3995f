"""Runs the harnesses of one property: proof tasks and concrete runs in worker processes, then
reports violations and writes the evidence file."""
import base64
import glob
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import harness as HR
from . import interp as I
from . import intrinsics as N
from . import values as V
from .engine import Ctx

VERIF = I.VERIF
EVID = os.path.join(VERIF, "evidence")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def doms_of(h, case):
    if h.inputs is None:
        return {}
    return h.inputs(**case) if callable(h.inputs) else h.inputs


def call_native(h, vals, case):
    """one concrete run on the real code -> None or a failure text"""
    N.COUNTS.clear()
    N.GHOST.clear()
    os.urandom = N.recording_urandom
    f = h.conc or h.fn
    try:
        f(**vals, **case)
    except N.Skip:
        return "skip", None
    except N.Violated as v:
        return "violated", str(v)
    except RecursionError as e:
        return "violated", f"no unexpected exception: RecursionError: {e}"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (AttributeError, NameError, ImportError, TypeError)) and tb[-1].filename.startswith(VERIF):
            # the harness itself cannot reach the code the way it expects to (renamed or re-shaped internals):
            # no statement about the behaviour
            return "unreachable", f"harness does not fit the code: {type(e).__name__}: {str(e)[:300]}"
        where = next((f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(tb) if x.filename.startswith(I.REPO)), "")
        return "violated", f"no unexpected exception: {type(e).__name__}: {str(e)[:300]} {where}"
    return "ok", None


def concrete_runs(h, case, n, seed, secs):
    rnd = random.Random(f"{seed}:{h.prop}:{h.name}:{sorted(case.items(), key=str)}")
    doms = doms_of(h, case) if h.gen is None else None
    t0 = time.time()
    done = skipped = 0
    i = 0
    checked = {}
    while i < n and time.time() - t0 < secs:
        try:
            vals = h.gen(rnd, i, **case) if h.gen is not None else {k: d.sample(rnd, rnd.randrange(8)) for k, d in doms.items()}
        except StopIteration:
            break
        if vals is None:
            break
        i += 1
        snap = snapshot(vals)
        r, txt = call_native(h, vals, case)
        for k, v in N.COUNTS.items():
            checked[k] = checked.get(k, 0) + v
        if r == "skip":
            skipped += 1
        elif r == "unreachable":
            return dict(runs=done, skipped=skipped, checked=checked, fail=None, unreachable=txt)
        elif r == "violated":
            return dict(runs=done + 1, skipped=skipped, checked=checked, fail=dict(inputs=snap, text=txt))
        else:
            done += 1
    return dict(runs=done, skipped=skipped, checked=checked, fail=None)


def snapshot(vals):
    try:
        return ("pickle", base64.b64encode(pickle.dumps(vals)).decode(), {k: N.short(v) for k, v in vals.items()})
    except Exception:  # noqa: BLE001
        return ("repr", None, {k: N.short(v) for k, v in vals.items()})


def prove_task(h, case, seed):
    from . import asn1, extmodels
    asn1.install()
    stubs = h.stubs(**case) if h.stubs else {}
    models = dict(extmodels.MODELS)
    if h.models:
        models.update(h.models(**case) if callable(h.models) else h.models)
    ctx = Ctx(stubs=stubs, models=models, max_loop=h.max_loop, budget=h.budget, qtimeout=h.qtimeout,
              max_paths=h.max_paths, seed=seed)
    ctx.intmode = h.intmode
    ctx.absbytes = h.absb
    if h.fold:
        ctx.fold = h.fold(**case)
    if h.loops:
        ctx.loops = {id(f): (f, d) for f, d in h.loops(**case).items()}
    doms = doms_of(h, case)

    def mk_inputs(c):
        out = {}
        for k, d in doms.items():
            out[k] = (d, d.sym(c, k))
        for k, v in case.items():
            out[k] = (_Fixed(v), v)
        return out

    t = time.time()
    ctx.run(h.fn, mk_inputs)
    fails = []
    for label, vals, text in ctx.failures:
        f = dict(label=label, text=text, replayed=None, inputs=None)
        if vals is not None:
            v2 = {k: v for k, v in vals.items() if k not in case}
            f["inputs"] = snapshot(v2)
            r, txt = call_native(h, v2, case)
            f["replayed"] = txt if r == "violated" else None
            f["replay_result"] = r
        fails.append(f)
    return dict(obl=ctx.obl, failures=fails, undecided=ctx.undecided, paths=ctx.paths, done=ctx.paths_done,
                queries=ctx.queries, solver_s=ctx.solver_s, backends=ctx.backends, touched=sorted(ctx.touched),
                notes=sorted(ctx.notes), stubs=[f"{f.__module__}.{f.__qualname__}" if hasattr(f, "__qualname__") else str(f) for f, _ in ctx.stubs.values()],
                wall=time.time() - t, covers=sorted(ctx.covers))


class _Fixed:
    def __init__(self, v):
        self.v = v

    def from_model(self, ctx, m, v):
        return self.v


def child(kind, h, case, opts, path):
    scratch = tempfile.mkdtemp(prefix="pyvc-")
    try:
        os.chdir(scratch)
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(6000)
        devnull = open(os.devnull, "w")
        if not os.environ.get("PYVC_DEBUG"):
            os.dup2(devnull.fileno(), 1)
            os.dup2(devnull.fileno(), 2)
        try:
            if kind == "prove":
                res = prove_task(h, case, opts["seed"])
            else:
                res = concrete_runs(h, case, opts["n"], opts["seed"], opts["secs"])
        except MemoryError:
            res = dict(crash="MemoryError")
        except BaseException:  # noqa: BLE001
            res = dict(crash=traceback.format_exc()[-3000:])
        with open(path + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(path + ".tmp", path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def run_jobs(jobs, workers=WORKERS):
    """jobs: list of (kind, h, case, opts, timeout) -> results in order"""
    mpc = mp.get_context("fork")
    out = [None] * len(jobs)
    tmp = tempfile.mkdtemp(prefix="pyvc-res-")
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][4])
    running = {}
    try:
        while order or running:
            while order and len(running) < workers:
                i = order.pop(0)
                kind, h, case, opts, to = jobs[i]
                p = mpc.Process(target=child, args=(kind, h, case, opts, os.path.join(tmp, str(i))))
                p.start()
                running[i] = (p, time.time() + to)
            time.sleep(0.02)
            for i, (p, dl) in list(running.items()):
                f = os.path.join(tmp, str(i))
                if not p.is_alive():
                    p.join()
                    if os.path.exists(f):
                        with open(f, "rb") as fh:
                            out[i] = pickle.load(fh)
                    else:
                        out[i] = dict(crash=f"worker died (exit {p.exitcode})")
                    del running[i]
                elif time.time() > dl:
                    p.kill()
                    p.join()
                    out[i] = dict(crash="timeout")
                    del running[i]
    finally:
        for p, _ in running.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def load_known():
    """committed findings: lines 'finding: property=<id> key=<harness>[/case] <text>' """
    out = {}
    p = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line.split()[1:3])
                out[(d["property"], d["key"])] = line.split(None, 3)[3]
    return out


def write_replay(prop, h, case, inputs, text, extra):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    cid = "-".join(str(v) for v in case.values())
    cid = "".join(c if c.isalnum() or c in "-_." else "_" for c in cid)[:60]
    p = os.path.join(d, f"{prop}-{h.name}{'-' + cid if cid else ''}.json")
    with open(p, "w", encoding="utf-8") as f:
        json.dump(dict(property=prop, harness=h.name, case={k: repr(v) for k, v in case.items()},
                       case_pickle=base64.b64encode(pickle.dumps(case)).decode() if picklable(case) else None,
                       inputs=inputs[2] if inputs else None, inputs_pickle=inputs[1] if inputs else None,
                       failed=text, how_to_replay=f"python3 /verif/check.py --replay {p}", **extra), f, indent=1)
    return p


def picklable(x):
    try:
        pickle.dumps(x)
        return True
    except Exception:  # noqa: BLE001
        return False


def load_prop(prop):
    importlib.import_module(f"props.{prop.lower()}")
    return HR.REG[prop]


def check(prop, tier="quick", seed=1, only=None, verbose=False):
    t0 = time.time()
    try:
        hs = load_prop(prop)
    except Exception:  # noqa: BLE001 - the code under test cannot even be imported
        tb = traceback.format_exc()
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{prop}-load.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump(dict(property=prop, failed="the functions under contract could not be found", verifier_output=tb[-4000:]), f, indent=1)
        print("# " + tb.strip().splitlines()[-1])
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        return 1
    if only:
        hs = {k: v for k, v in hs.items() if k in only}
    if not only:
        for old in glob.glob(os.path.join(EVID, "replay", f"{prop}-*.json")):
            os.remove(old)
    jobs, meta = [], []
    thorough = tier == "thorough"
    for h in hs.values():
        if h.tier == "thorough" and not thorough:
            continue
        for case in h.cases:
            if h.level in ("proof", "bounded-proof"):
                jobs.append(("prove", h, case, dict(seed=seed), h.budget * (6 if thorough else 3) + 60))
                meta.append(("prove", h, case))
            n = h.tn if thorough else h.n
            if n:
                secs = h.samples_s * (10 if thorough else 1)
                jobs.append(("conc", h, case, dict(seed=seed, n=n, secs=secs), secs + 240))
                meta.append(("conc", h, case))
    res = run_jobs(jobs)
    known = load_known()
    viol, knownhits = [], []
    oblig = disch = 0
    fns, touched, stubs, notes, backends = set(), set(), set(), set(), {}
    solver_s = 0.0
    runs = skipped = 0
    undec = []
    per_h = {}
    bounded = []
    second = []
    for (kind, h, case), r in zip(meta, res):
        key = h.name
        ph = per_h.setdefault(key, dict(level=h.level, functions=h.fns, obligations=0, discharged=0, paths=0, runs=0, tasks=0))
        fns.update(h.fns)
        ph["tasks"] += 1
        if h.bound and h.bound not in [b["bound"] for b in bounded if b["harness"] == key]:
            bounded.append(dict(harness=key, functions=h.fns, bound=h.bound))
        if "crash" in r:
            if kind == "prove":
                undec.append((h, case, "(worker)", r["crash"]))
                oblig += 1
                ph["obligations"] += 1
            else:
                notes.add(f"concrete runs of {key} {case}: {r['crash'][-300:]}")
                if verbose:
                    print("CRASH", key, case, r["crash"])
                if r["crash"] != "timeout":
                    undec.append((h, case, "(concrete worker)", r["crash"]))
            continue
        if kind == "prove":
            o = sum(v[0] for v in r["obl"].values())
            d = sum(v[1] for v in r["obl"].values())
            touched.update(r["touched"])
            stubs.update(r["stubs"])
            notes.update(r["notes"])
            solver_s += r["solver_s"]
            for k, v in r["backends"].items():
                backends[k] = backends.get(k, 0) + v
            if verbose:
                print(f"  {key} {case if case else ''}: {d}/{o} obligations, {r['paths']} paths, {r['queries']} queries, "
                      f"{r['solver_s']:.1f}s solver, {r['wall']:.1f}s" + (f" UNDECIDED {r['undecided'][:2]}" if r["undecided"] else "") +
                      (f" FAIL {[(f['label'], f['text'][:200], f['inputs'] and f['inputs'][2], f['replayed']) for f in r['failures']]}" if r["failures"] else ""))
            ph["obligations"] += o
            ph["discharged"] += d
            ph["paths"] += r["paths"]
            if h.level == "proof":
                oblig += o
                disch += d
            miss = [c for c in h.covers if c not in r["covers"]]
            if not r["failures"] and not r["undecided"] and not h.known:
                if o == 0:
                    undec.append((h, case, "(vacuity)", "no obligation was generated"))
                elif miss:
                    undec.append((h, case, "(vacuity)", f"not reachable: {miss}"))
            for f in r["failures"]:
                if f["replayed"]:
                    viol.append((h, case, f["inputs"], f"{f['label']}: {f['replayed']}", True, f))
                else:
                    second.append((h, case, f))
            for lab, why in r["undecided"]:
                if lab not in r["obl"] or True:
                    undec.append((h, case, lab, why))
                    if h.level == "proof" and lab.startswith("("):
                        oblig += 1
        else:
            runs += r["runs"]
            skipped += r["skipped"]
            ph["runs"] += r["runs"]
            if verbose:
                print(f"  {key} {case if case else ''}: {r['runs']} concrete runs ({r['skipped']} outside precondition)" + (f" FAIL {r['fail']['text']} {r['fail']['inputs'][2]}" if r["fail"] else ""))
            if r["fail"]:
                viol.append((h, case, r["fail"]["inputs"], r["fail"]["text"], True, {}))
            if r.get("unreachable"):
                undec.append((h, case, "(concrete runs)", r["unreachable"]))
            elif h.level == "bounded" and r["runs"] == 0 and not r["fail"]:
                undec.append((h, case, "(vacuity)", "no concrete run inside the precondition"))
    # failures/undecided without a concrete input yet: search harder on the real code
    have = {(id(h), repr(sorted(c.items(), key=str))) for h, c, *_ in viol}
    need = []
    for h, case, *_ in second + undec:
        k = (id(h), repr(sorted(case.items(), key=str)))
        if k not in have and k not in [x[0] for x in need] and (h.gen is not None or h.conc or h.n):
            need.append((k, h, case))
    if need:
        sj = [("conc", h, case, dict(seed=seed + 1, n=max(h.n, 1) * 40, secs=60), 200) for _, h, case in need[:16]]
        for (k, h, case), r in zip(need, run_jobs(sj)):
            if "crash" not in r:
                runs += r["runs"]
                if r["fail"]:
                    viol.append((h, case, r["fail"]["inputs"], r["fail"]["text"], True, {}))
                    have.add(k)
    for h, case, f in second:
        if (id(h), repr(sorted(case.items(), key=str))) not in have:
            viol.append((h, case, f["inputs"], f"{f['label']}: {f['text']}", False, f))
    for h, case, lab, why in undec:
        if (id(h), repr(sorted(case.items(), key=str))) not in have:
            viol.append((h, case, None, f"obligation not discharged: {lab} {str(why)[-600:]}", False, {}))
    code = 0
    seen = set()
    out_viol = 0
    for h, case, inputs, text, real, f in viol:
        ck = f"{h.name}" + ("" if not case else "/" + ",".join(str(v) for v in case.values()))
        if h.known:
            kk = (prop, h.name)
            if kk in known:
                if kk not in seen:
                    seen.add(kk)
                    knownhits.append(h.name)
                    print(f"KNOWN-FINDING: property={prop} {known[kk]}")
                continue
        if (ck, real) in seen or (ck, True) in seen:
            continue
        seen.add((ck, real))
        p = write_replay(prop, h, case, inputs, text, dict(obligation=f.get("label"), verifier_output=f.get("text", text), confirmed_on_real_code=real))
        print(f"# {ck}: {text[:500]}")
        print(f"VIOLATION property={prop} replay={p}" + ("" if real else " no-failing-input-found"))
        out_viol += 1
        code = 1
    lev = manifest_level(prop)
    names = sorted(touched)
    trusted = sorted(set(sum([h.trusted for h in hs.values()], [])))
    ev = dict(property=prop, tier=tier, seed=seed, level=lev, wall_s=round(time.time() - t0, 2), violations=out_viol,
              assumptions=sorted(set(trusted) | notes | {
                  "pyvc (the interpreter of Python semantics in /verif/pyvc) is trusted; it is cross-checked by the concrete runs of the same harnesses on CPython",
                  "z3 5.3 (and cvc5 on retry) is trusted for 'unsat' answers"}),
              coverage=dict(obligations=oblig, discharged=disch,
                            checker_cmd=f"python3 /verif/check.py {prop} --tier {tier}",
                            trusted_base=["z3", "cvc5 (retries)", "pyvc interpreter", "CPython ast parser"] + trusted,
                            functions_under_contract=sorted(fns),
                            functions_executed_symbolically=names,
                            callees_replaced_by_contract=sorted(stubs),
                            discharged_by=backends, solver_s=round(solver_s, 2),
                            concrete_runs=runs, concrete_skipped=skipped,
                            bounded_stand_ins=bounded, harnesses=per_h,
                            undecided=[f"{h.name}: {lab} {str(w)[:200]}" for h, c, lab, w in undec],
                            known_findings=knownhits))
    if lev != "proof":
        ev["coverage"].update(evidence_extra(lev, ev["coverage"], runs))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    print(f"{prop} [{tier}]: {disch}/{oblig} proof obligations discharged over {len(names)} real functions; {runs} concrete runs; "
          f"{out_viol} violation(s); {time.time() - t0:.1f}s")
    return code


def evidence_extra(lev, cov, runs):
    return dict(cases=runs, distinct=runs)


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, KeyError, ValueError):
        pass
    return "proof"


def replay(path):
    d = json.load(open(path))
    hs = load_prop(d["property"])
    h = hs[d["harness"]]
    print(f"property {d['property']} harness {d['harness']} failed: {d['failed']}")
    if not d.get("inputs_pickle"):
        print("no concrete input recorded; verifier output:", d.get("verifier_output"))
        return 1
    vals = pickle.loads(base64.b64decode(d["inputs_pickle"]))
    case = pickle.loads(base64.b64decode(d["case_pickle"]))
    print("inputs:", {k: N.short(v) for k, v in vals.items()})
    r, txt = call_native(h, vals, case)
    print("result on the real code:", r, txt or "")
    return 1 if r == "violated" else 0
