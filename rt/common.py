"""Run-time contract checks on the real code (bounded stand-in and counterexample replay).

Every module rt/cXX.py defines cases(rng, tier): an iterator of JSON-able dicts, and run(case):
raises Violation if the contract is broken by the real code on that input.
"""
import json
import os
import sys
import time
import traceback
import random
import hashlib
import tempfile
import shutil
import signal
import itertools

for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI=os.environ.get("OPENMDAO_USE_MPI", ""),
                 OMPI_MCA_ess_singleton_isolated="1", TESTFLO_RUNNING="1").items():
    if v:
        os.environ.setdefault(k, v)
SRC = os.environ.get("PYVC_SRC")
if SRC:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def close(a, b, msg, tol=1e-9):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    if np.any(np.isnan(a)) or np.any(np.isnan(b)):
        if np.array_equal(np.isnan(a), np.isnan(b)):
            m = ~np.isnan(a)
            a, b = a[m], b[m]
        else:
            raise Violation(f"{msg}: NaN")
        if a.size == 0:
            return
    sc = 1.0 + np.max(np.abs(b))
    d = np.max(np.abs(a - b))
    if not d <= tol * sc:
        raise Violation(f"{msg}: got {a.ravel()[:6].tolist()}, expected {b.ravel()[:6].tolist()} (difference {d:g})")


def exact(a, b, msg):
    close(a, b, msg, 0.0)


def variants(mod, seed, tier):
    """cases around integer constants that the sources under contract did not contain when this machinery was written"""
    novel = [c for c in json.loads(os.environ.get("RKV_NOVEL") or "[]")]
    dial = getattr(mod, "DIAL", {})
    if not novel or not dial:
        return
    rng = random.Random(seed + 7)
    base = []
    for c in mod.cases(rng, tier):
        if any(k in c for k in dial) and "mpi" != c.get("kind"):
            base.append(c)
        if len(base) >= 40:
            break
    for c in novel[:6]:
        for key, top in dial.items():
            have = [b for b in base if key in b]
            for v in (c + 1, c, c + 2, c - 1):
                if 1 <= v <= top:
                    for b in have[:12 if v <= 50 else 5]:
                        yield dict(b, **{key: v})


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(mod, case):
    """run a case; the parallel file layer of the sandbox sometimes cannot open a file at all, whatever the code does: try again"""
    for n in range(5):
        try:
            signal.alarm(int(getattr(mod, "CASE_TIMEOUT", 60)))
            return mod.run(case)
        except Exception as e:
            if n == 4 or "MPI_File_open failed" not in str(e):
                raise
        signal.alarm(0)
        time.sleep(.2 + n)


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="rkv_")
    os.chdir(scratch)
    mod.SCRATCH = scratch
    res = {"cases": 0, "failures": [], "skipped": 0, "groups": {}}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        if a.replay:
            case = json.load(open(a.replay))["case"]
            try:
                run_case(mod, case)
            except Violation as e:
                print("VIOLATED:", e)
                sys.exit(1)
            print("contract holds on this input")
            sys.exit(0)
        rng = random.Random(a.seed)
        t0 = time.time()
        seen = set()
        extra = variants(mod, a.seed, a.tier)
        for case in itertools.chain(extra, [None], mod.cases(rng, a.tier)):
            if case is None:
                t0 = max(t0, time.time() - 60)      # cases around new constants get up to a minute of their own
                continue
            if time.time() - t0 > a.budget and res["cases"] >= getattr(mod, "MIN_CASES", 1):
                break
            try:
                run_case(mod, case)
                res["cases"] += 1
                g = str(case.get("kind", "all"))
                res["groups"][g] = res["groups"].get(g, 0) + 1
            except Skip:
                res["skipped"] += 1
            except Exception as e:
                res["cases"] += 1
                if isinstance(e, Violation):
                    msg = str(e)
                elif isinstance(e, CaseTimeout):
                    msg = "does not terminate within the case time limit"
                else:
                    tb = traceback.extract_tb(e.__traceback__)
                    inrepo = [f for f in tb if "rkopenmdao" in f.filename and "/rt/" not in f.filename]
                    msg = f"{type(e).__name__}: {e}" + (f" at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].name}" if inrepo else " in the harness " + "".join(traceback.format_tb(e.__traceback__)[-2:]))
                sig = getattr(mod, "signature", lambda c, m: c.get("kind", ""))(case, msg)
                key = (sig, msg.split(":")[0][:60])
                if key not in seen and len(res["failures"]) < 6:
                    seen.add(key)
                    res["failures"].append({"case": case, "message": msg, "signature": sig})
                if len(res["failures"]) >= 6:
                    break
            finally:
                signal.alarm(0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        print(json.dumps(res, indent=1)[:4000])
