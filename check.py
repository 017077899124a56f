#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [quick|thorough]

1. deductive: every obligation generated from /repo's current source by the contracts in
   specs/<id>.py must be discharged (pyvc: normal forms, z3, cvc5), for all inputs, unbounded;
2. if an obligation is not discharged: the same contracts with the loops unrolled (bounded), to
   separate broken code from a proof that merely no longer goes through;
3. run-time contract check of the real code (bounded): replays / searches a failing input and
   covers the functions the verifier cannot reach.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the machinery itself failed.
"""
import sys
import os
VT = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("PYVC_NOEXEC"):
    os.environ["PYVC_NOEXEC"] = "1"
    os.execv(VT, [VT, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import importlib
import json
import multiprocessing as mp
import re
import subprocess
import tempfile
import time
import traceback

RPY = "/opt/venv/bin/python"
EVDIR = os.environ.get("RKV_EVDIR") or os.path.join(HERE, "evidence")


def _unit(args):
    modname, level, tier, ints, k, tlimit = args
    import resource
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    import signal

    def onalarm(*a):
        raise TimeoutError("unit time limit")
    signal.signal(signal.SIGALRM, onalarm)
    from pyvc.interp import explore
    from pyvc import prover as P
    m = importlib.import_module("specs." + modname)
    us = _list(m, level, tier, ints)
    name, run, con, opts = us[k]
    t0 = time.time()
    out = dict(unit=name, level=level, results=[], unsupported=[], paths=0, inlined=[], cut=False)
    try:
        signal.alarm(int(tlimit))
        rep = explore(name, run, con, opts, max_paths=opts.get("max_paths", 600))
        signal.alarm(0)
        agg = {}
        for nm, rs in rep.results.items():
            for r, kind, tr, facts in rs:
                a = agg.setdefault(nm, dict(name=nm, total=0, proved=0, refuted=0, unknown=0, how={}, detail=""))
                a["total"] += 1
                a[r.status] += 1
                if r.status == "proved":
                    a["how"][r.how] = a["how"].get(r.how, 0) + 1
                elif not a["detail"] or r.status == "refuted":
                    mdl = getattr(r, "model", None)
                    fcts = [str(f)[:200] for f in sorted(facts, key=str)][:14]
                    a["detail"] = f"{r.status} by {r.how}: {(r.detail or '')[:1500]} | path condition: {fcts} | model: {str(mdl)[:800] if mdl is not None else None}"
        out.update(results=list(agg.values()), unsupported=rep.unsupported[:20], paths=rep.paths,
                   inlined=sorted(rep.inlined), cut=rep.bounded_cut, assumed=rep.assumed)
    except TimeoutError as e:
        out["unsupported"].append("time limit")
    except MemoryError:
        out["unsupported"].append("memory limit")
    except Exception as e:
        signal.alarm(0)
        out["unsupported"].append("internal: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    out["wall"] = time.time() - t0
    out["stats"] = dict(P.STATS)
    return out


def _list(m, level, tier, ints):
    """L1: unbounded contracts; LB: contracts with some stated bound, always run; L2: fully bounded."""
    if level == "L1":
        return m.units(tier)
    if level == "LB":
        return m.always(tier) if hasattr(m, "always") else []
    return m.bounded(tier, ints)


def run_units(modname, level, tier, ints, tlimit, total=None):
    """every unit of one level; units not finished within `total` seconds are reported as not decided"""
    m = importlib.import_module("specs." + modname)
    us = _list(m, level, tier, ints)
    if not us:
        return []
    end = time.time() + (total or 10 ** 6)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(us)), maxtasksperchild=4) as pool:
        rs = [pool.apply_async(_unit, ((modname, level, tier, ints, k, tlimit),)) for k in range(len(us))]
        out = []
        for u, r in zip(us, rs):
            try:
                out.append(r.get(max(0.0, end - time.time())))
            except mp.TimeoutError:
                out.append(dict(unit=u[0], level=level, results=[], unsupported=["time limit of the whole check"], paths=0, inlined=[], cut=False, wall=0.0, stats={}))
        return out


def run_rt(pid, tier, seed, budget, novel=()):
    f = os.path.join(HERE, "rt", pid.lower() + ".py")
    if not os.path.exists(f):
        return None
    env = dict(os.environ)
    env.pop("PYVC_NOEXEC", None)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENMDAO_REPORTS="0", MPLBACKEND="Agg",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1",
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm_rsh_agent="/bin/false",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_ess_singleton_isolated="1",
               PYTHONPATH=os.environ.get("PYVC_SRC", "/repo/src"))
    env["RKV_NOVEL"] = json.dumps(list(novel))
    fd, out = tempfile.mkstemp(prefix="rkv_out_")
    os.close(fd)
    cmd = [RPY, "-B", f, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget * 3 + 240, text=True, errors="replace")
        txt = open(out).read()
        if not txt:
            return dict(error=p.stdout[-3000:], wall=time.time() - t0, cases=0, failures=[])
        r = json.loads(txt)
        r["wall"] = time.time() - t0
        return r
    except subprocess.TimeoutExpired:
        return dict(error="time limit", wall=time.time() - t0, cases=0, failures=[])
    finally:
        os.unlink(out)


def source_ints(mod):
    """small integer literals of the functions under contract (bounds for the bounded pass)."""
    import ast
    ints = set()
    src = os.environ.get("PYVC_SRC", "/repo/src")
    for f in getattr(mod, "FILES", []):
        try:
            for x in ast.walk(ast.parse(open(os.path.join(src, f)).read())):
                if isinstance(x, ast.Constant) and type(x.value) is int and 2 <= x.value <= 12:
                    ints.add(x.value)
        except Exception:
            pass
    return sorted(ints)


def all_ints(mod):
    import ast
    ints = set()
    src = os.environ.get("PYVC_SRC", "/repo/src")
    for f in getattr(mod, "FILES", []):
        try:
            ints |= {x.value for x in ast.walk(ast.parse(open(os.path.join(src, f)).read())) if isinstance(x, ast.Constant) and type(x.value) is int}
        except Exception:
            pass
    return ints


def novel_ints(pid, mod):
    """integer constants of the sources under contract that are not in the recorded list (extra bounds for the run-time contracts)"""
    try:
        base = json.load(open(os.path.join(HERE, "tools", "constants.json")))[pid]
    except Exception:
        return []
    return sorted(x for x in all_ints(mod) - set(base) if 2 <= x <= 10**6)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = pid.lower()
    mod = importlib.import_module("specs." + modname)
    os.makedirs(EVDIR, exist_ok=True)
    tl = 120 if tier == "quick" else 600
    lim = (300, 200, 150) if tier == "quick" else (2400, 1800, 1800)
    l1 = run_units(modname, "L1", tier, (), tl, lim[0])

    def fails(us):
        return [(u["unit"], r) for u in us for r in u["results"] if r["proved"] < r["total"]]
    unsup = [(u["unit"], x) for u in l1 for x in u["unsupported"]]
    empty = [u["unit"] for u in l1 if not u["results"]]
    l1_ok = not fails(l1) and not unsup and not empty
    l2 = run_units(modname, "LB", tier, (), tl, lim[1])
    lb = list(l2)
    ints = source_ints(mod)
    has_l2 = hasattr(mod, "bounded")
    if has_l2 and (not l1_ok or tier == "thorough"):
        l2 = l2 + run_units(modname, "L2", tier, tuple(ints), tl, lim[2])
    budget = getattr(mod, "RT_BUDGET", 15) * (1 if tier == "quick" else 12)
    if not l1_ok or fails(l2):
        budget *= 2
    rt = run_rt(pid, tier, seed, budget, novel_ints(pid, mod))

    known = known_findings(pid)
    viol, knownhit = [], []
    if rt:
        for f in rt.get("failures", []):
            hit = [k for k in known if k[0] == f["signature"]]
            if hit:
                if hit[0] not in knownhit:
                    knownhit.append(hit[0])
            else:
                viol.append(f)
    # obligations refuted in the bounded contracts (or, without loops, in the unbounded ones)
    ref = [(u, r) for u, r in fails(l2) if r["refuted"]]
    if not has_l2:
        ref += [(u, r) for u, r in fails(l1) if r["refuted"]]
    trust = getattr(mod, "L1_TRUST", ())
    ref += [(u, r) for u, r in fails(l1) if r["refuted"] and any(re.search(p, u + "/" + r["name"]) for p in trust) and (u, r) not in ref]
    kref = getattr(mod, "KNOWN_OBLIGATIONS", {})
    ref2 = []
    for u, r in ref:
        sig = kref.get((u, r["name"])) or kref.get(r["name"])
        hit = [k for k in known if sig and k[0] == sig]
        if hit:
            if hit[0] not in knownhit:
                knownhit.append(hit[0])
        else:
            ref2.append((u, r))
    ref = ref2
    total = sum(r["total"] for u in l1 for r in u["results"])
    proved = sum(r["proved"] for u in l1 for r in u["results"])
    btotal = sum(r["total"] for u in l2 for r in u["results"])
    bproved = sum(r["proved"] for u in l2 for r in u["results"])
    how = {}
    for u in l1 + l2:
        for r in u["results"]:
            for k, v in r["how"].items():
                how[k] = how.get(k, 0) + v
    stats = {}
    for u in l1 + l2:
        for k, v in u.get("stats", {}).items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    inl = sorted({x for u in l1 + l2 for x in u["inlined"]})
    rc = 0
    lines = []
    rep = os.path.join(EVDIR, "replay")
    for sig, txt in knownhit:
        lines.append(f"KNOWN-FINDING: property={pid} {txt}")
    obname = ", ".join(sorted({f"{u}/{r['name']}" for u, r in (ref or fails(l1))})[:6])
    if viol or ref:
        os.makedirs(rep, exist_ok=True)
        rc = 1
    if viol:
        f = viol[0]
        path = os.path.join(rep, f"{pid}.json")
        json.dump(dict(property=pid, case=f["case"], message=f["message"], all=viol, failed_obligations=[dict(unit=u, **r) for u, r in (ref + fails(l1))][:12],
                       rerun=f"PYTHONPATH=/repo/src {RPY} {HERE}/rt/{modname}.py --replay {path}"), open(path, "w"), indent=1)
        lines.append(f"failing input: {json.dumps(f['case'])[:600]}")
        lines.append(f"  {f['message'][:600]}")
        if obname:
            lines.append(f"failed obligations: {obname[:600]}")
        lines.append(f"VIOLATION property={pid} replay={path}")
    elif ref:
        path = os.path.join(rep, f"{pid}.json")
        json.dump(dict(property=pid, failed_obligations=[dict(unit=u, **r) for u, r in ref][:20]), open(path, "w"), indent=1)
        for u, r in ref[:3]:
            lines.append(f"failed obligation: {u}/{r['name']}: {r['detail'][:500]}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    if rt and rt.get("error"):
        lines.append("run-time contract check did not run: " + rt["error"][-800:])
        if rc == 0:
            rc = 2
    unsup += [(u["unit"], x) for u in lb for x in u["unsupported"]]
    for u, x in unsup[:6]:
        lines.append(f"note: not decided by the unbounded proof: {u}: {x[:400]}")
    for u, r in (fails(l1) + fails(lb))[:6]:
        if rc == 0:
            lines.append(f"note: obligation undecided: {u}/{r['name']}: {r['detail'][:300]}")
    only_rt = not l1
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  scope=getattr(mod, "LEVEL", "proved for all inputs; see bounded for what is checked within bounds"),
                  obligations=total, discharged=proved,
                  checker_cmd=f"python3 {HERE}/check.py {pid} {tier}",
                  trusted_base=["pyvc (verification-condition generator and term normaliser in /verif/pyvc)", "z3", "cvc5",
                                "numpy semantics as stated in pyvc/npmodel.py"] + list(getattr(mod, "TRUSTED", [])),
                  functions_under_contract=list(getattr(mod, "FUNCS", [])),
                  functions_executed_symbolically=inl,
                  units=[dict(unit=u["unit"], paths=u["paths"], wall_s=round(u["wall"], 2), obligations=sum(r["total"] for r in u["results"]),
                              discharged=sum(r["proved"] for r in u["results"]), unsupported=u["unsupported"][:3]) for u in l1],
                  discharged_by=how, solver=stats,
                  bounded=dict(units=[u["unit"] for u in l2], obligations=btotal, discharged=bproved, note="same contracts with concrete small sizes; never counted as proved"),
                  runtime_contracts=dict(cases=(rt or {}).get("cases", 0), groups=(rt or {}).get("groups", {}), note="bounded; concrete inputs on the real code", what=getattr(mod, "RT_NOTE", "")),
                  unbounded_proof_complete=bool(l1_ok and l1),
              ),
              wall_s=round(time.time() - t0, 2),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "floating-point arithmetic is treated as exact real arithmetic",
                  "divisors are non-zero on the paths considered"],
              violations=len([l for l in lines if l.startswith("VIOLATION")]))
    json.dump(ev, open(os.path.join(EVDIR, f"{pid}.json"), "w"), indent=1)
    print(f"{pid} [{tier}] obligations {proved}/{total} discharged"
          + (f", bounded {bproved}/{btotal}" if l2 else "")
          + (f", run-time contracts on {rt['cases']} inputs" if rt else "") + f", {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    if rc == 0 and not l1 and not (rt and rt.get("cases")):
        print("nothing was checked")
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
