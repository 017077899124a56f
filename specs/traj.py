"""Ghost trajectory of an integration: X_f(k) is field f after k committed steps of the run in
progress, DX_f(k) the perturbation.  The step contracts (C01/C02, C07) become: a step made from X(k)
with the step size of step k+1 yields X(k+1)."""
from .integ import *

X = lambda f, k, ix: app("X_" + f, [lift(k)] + list(ix))
DX = lambda f, k, ix: app("DX_" + f, [lift(k)] + list(ix))
Sug = lambda k: app("X_sug", [lift(k)])
Used = lambda k: app("X_h", [lift(k)])
Em = lambda k: app("X_em", [lift(k)])
Done = lambda k: le(ONE, app("Done", [lift(k)]))
KEY = ["final_state", "final_time", "independent_inputs"]


class Ghost(Native):
    FIELDS = ["pos", "dpos", "phase", "h", "mode", "rej", "asked"]

    def __init__(self, I):
        self.pos = self.dpos = ZERO
        self.phase = "idle"
        self.h = None
        self.mode = None
        self.rej = 0
        self.asked = 0
        I.register(self)

    def snap(self):
        return {k: getattr(self, k) for k in self.FIELDS}

    def restore(self, s):
        self.__dict__.update(s)


class Traj(Harness):
    """steps of a run whose trajectory is named; crit 'abstract' -> Done(k)"""
    max_rej = None

    def __init__(self, I, **kw):
        self.g = Ghost(I)
        self.hook_recursion = False
        super().__init__(I, **kw)

    # -------------------------------------------------- closed forms of the control data
    def sug(self, k):
        k = lift(k)
        return ite(le(k, ZERO), self.h0, Sug(k)) if self.adaptive else self.h0

    def tfield(self, f, k):
        """content of a control field after k steps; None: unspecified"""
        k = lift(k)
        if f == "step_size_suggestion":
            return lambda ix: self.sug(k)
        if f == "step_size_history":
            if self.adaptive:
                return lambda ix: ite(eq(ix[0], ZERO), ite(le(ONE, k), Used(k), ZERO), ite(le(lift(2), k), Used(sub(k, ONE)), ZERO))
            return lambda ix: ite(le(ONE, k), self.h0, ZERO)
        if self.adaptive:
            return lambda ix: ite(eq(ix[0], ZERO), ite(le(ONE, k), Em(k), self.tol), ite(le(lift(2), k), Em(sub(k, ONE)), self.tol))
        return lambda ix: self.tol

    def dfield(self, f, k, first=None):
        if f == "independent_inputs":
            return lambda ix: app("X_p", list(ix))
        return lambda ix: X(f, k, ix)

    def pfield(self, f, k):
        if f == "independent_inputs":
            return lambda ix: app("DX_p", list(ix))
        return lambda ix: DX(f, k, ix)

    # -------------------------------------------------- vectors holding the inputs of the run
    def named_in(self, name, field, pfld, tname):
        v = self.in_vec(name)
        for n, off, t in self.qs:
            v.v[n + "_initial"].write(lambda ix, off=off: field([add(off, ix[0])]))
        for n, off, t in self.ps:
            v.v[n].write(lambda ix, off=off: pfld([add(off, ix[0])]))
        v.v["time_initial"].write(lambda ix: tname)
        return v

    def run_inputs(self):
        return self.named_in("in", lambda ix: X("final_state", ZERO, ix), lambda ix: app("X_p", ix), X("final_time", ZERO, (ZERO,)))

    def run_dinputs(self):
        return self.named_in("din", lambda ix: DX("final_state", ZERO, ix), lambda ix: app("DX_p", ix), DX("final_time", ZERO, (ZERO,)))

    # -------------------------------------------------- contracts
    def begin(self, mode):
        g = self.g
        g.pos = g.dpos = ZERO
        g.phase, g.h, g.rej, g.mode = "idle", None, 0, mode

    def at_pos(self, what, ds, k, fields=KEY):
        for f in fields:
            same_array(self.I, f"{what}: {f}", self.I.getattr(ds, f), self.dfield(f, k))

    def compute_step(self, ar, kw):
        I, g = self.I, self.g
        d = argmap(I, ["ode", "time_discretization_state", "step_size"], ar, kw)
        ds = d["time_discretization_state"]
        self.isds(ds, "compute_step")
        truth(I, "the step is made for the ODE", d["ode"] is self.ode.obj)
        truth(I, "every trial is judged before the next", g.phase == "idle", g.phase)
        self.at_pos("a step starts from the current state", ds, g.pos)
        h = num(I, d["step_size"])
        want = self.sug(g.pos) if g.h is None else g.h
        I.oblige("a step uses the current step size", eqs=(h, want))
        self.before_step(h)
        acc = True
        if self.adaptive:
            acc = True if self.max_rej is not None and g.rej >= self.max_rej else I.choose(2, "accept") == 0
        if acc:
            I.assume(eq(Used(add(g.pos, ONE)), h))
            k = add(g.pos, ONE)
            out = {}
            for kk, f in self.fields():
                if kk != "d":
                    continue
                fn = lambda ix, f=f: X(f, k, ix)
                if f == "start_state":
                    fn = lambda ix: X("final_state", sub(k, ONE), ix)
                elif f == "start_time":
                    fn = lambda ix: X("final_time", sub(k, ONE), ix)
                elif f == "step_size":
                    fn = lambda ix: h
                elif f == "independent_inputs":
                    fn = self.dfield(f, k)
                elif f == "final_time":
                    I.assume(eq(X("final_time", k, (ZERO,)), add(X("final_time", sub(k, ONE), (ZERO,)), h)))
                out[(kk, f)] = fn
            self.put(ds, out)
            g.phase = "accepted"
            if not self.adaptive:
                self.commit()
        else:
            g.rej += 1
            for f in STATE_FIELDS + (EMB_FIELDS if self.embedded else []):
                if f not in ("start_state", "start_time", "step_size", "independent_inputs"):
                    havoc(I.getattr(ds, f), I.fresh_name("rejected_" + f))
            g.phase = "rejected"
        return ds

    def before_step(self, h):
        pass

    def commit(self):
        g = self.g
        g.pos = add(g.pos, ONE)
        g.phase, g.h, g.rej = "idle", None, 0

    def control(self, kw):
        I, g = self.I, self.g
        truth(I, "the controller judges a trial", g.phase in ("accepted", "rejected"), str(g.phase))
        if g.phase == "accepted":
            k = add(g.pos, ONE)
            I.assume(eq(num(I, kw["error_measure"]), Em(k)))
            sug, acc = Sug(k), True
            self.commit()
        else:
            sug, acc = I.fresh("sug"), False
            g.h, g.phase = sug, "idle"
        g.asked += 1
        return I.call(I.get(PKG + ".error_controller:ErrorControllerStatus"), [sug, acc], {})

    def finished(self, ar, kw):
        I, g = self.I, self.g
        d = argmap(I, ["iteration", "time_integration_state"], ar, kw)
        I.oblige("the criterion is asked about the number of performed steps", eqs=(num(I, d["iteration"]), g.pos))
        self.check_state("the criterion is asked about the current state", d["time_integration_state"], {("d", f): self.dfield(f, g.pos) for f in KEY})
        return Done(g.pos)

    def install_retry(self):
        """contract for the re-entered step iteration (C07): it ends with the accepted step"""
        I = self.I
        stack = []

        def hook(I2, f, ar, kw):
            tis = [a for a in list(ar) + list(kw.values()) if isinstance(a, Obj) and a.cls.name == "TimeIntegrationState"]
            if len(tis) != 1:
                return NotImplemented
            if f.qual not in stack:
                stack.append(f.qual)
                try:
                    return I2.run(f, ar, kw)
                finally:
                    stack.pop()
            self.retry(tis[0])
            return tis[0]
        for nm, f in I.get(RKI + ":RungeKuttaIntegrator").ns.items():
            if isinstance(f, PyFunc) and f.name not in ("setup", "compute", "compute_jacvec_product"):
                I.contracts[f.qual] = hook

    def retry(self, tis):
        I, g = self.I, self.g
        truth(I, "a retry only follows a rejection", g.h is not None and g.phase == "idle")
        want = {("d", f): self.dfield(f, g.pos) for f in KEY}
        h = g.h
        want[("t", "step_size_suggestion")] = lambda ix: h
        want[("t", "step_size_history")] = self.tfield("step_size_history", g.pos)
        want[("t", "error_history")] = self.tfield("error_history", g.pos)
        self.check_state("a retry starts from the unchanged committed state", tis, want)
        k = add(g.pos, ONE)
        for (kk, f) in self.fields():
            a = self.get(tis, (kk, f))
            if kk == "t":
                a.write(self.tfield(f, k))
            elif f == "start_state":
                a.write(lambda ix: X("final_state", sub(k, ONE), ix))
            elif f == "start_time":
                a.write(lambda ix: X("final_time", sub(k, ONE), ix))
            elif f == "step_size":
                a.write(lambda ix: Used(k))
            elif f != "independent_inputs":
                a.write(lambda ix, f=f: X(f, k, ix))
        I.assume(eq(X("final_time", k, (ZERO,)), add(X("final_time", g.pos, (ZERO,)), Used(k))))
        self.commit()

    # -------------------------------------------------- derivative steps
    def compute_step_derivative(self, ar, kw):
        I, g = self.I, self.g
        d = argmap(I, ["ode", "time_discretization_state", "time_discretization_state_perturbation", "step_size"], ar, kw)
        ds, dp = d["time_discretization_state"], d["time_discretization_state_perturbation"]
        self.isds(ds, "compute_step_derivative")
        self.isds(dp, "compute_step_derivative")
        truth(I, "the derivative step is made for the ODE", d["ode"] is self.ode.obj)
        truth(I, "derivative steps only in derivative evaluations", g.mode == "fwd", str(g.mode))
        I.oblige("one derivative step per step", eqs=(g.pos, add(g.dpos, ONE)))
        self.at_pos("a derivative step is taken about the step just made", ds, g.pos, ["linearization_points"])
        I.oblige("a derivative step has the size of its step", eqs=(num(I, d["step_size"]), Used(g.pos) if self.adaptive else self.h0))
        for f in KEY:
            same_array(I, f"a derivative step continues the perturbation: {f}", I.getattr(dp, f), self.pfield(f, g.dpos))
        g.dpos = add(g.dpos, ONE)
        k = g.dpos
        self.put(dp, {("d", f): self.pfield(f, k) for kk, f in self.fields() if kk == "d"})
        return dp

    def compute_step_adjoint_derivative(self, ar, kw):
        raise Unsupported("adjoint step")


class StepsLoop:
    """candidate invariant of while/for loops making steps"""

    def __init__(self, H):
        self.H = H

    def find(self, I, fr):
        """the states the loop works on: those whose content is the current trajectory point"""
        H = self.H
        states, perts, seen = [], [], set()
        for v in list(fr.vars.values()):
            v = getattr(v, "v", v) if type(v).__name__ == "_MaybeSame" else v
            if not (isinstance(v, Obj) and v.cls.name == "TimeIntegrationState") or id(v) in seen:
                continue
            seen.add(id(v))
            a = H.get(v, ("d", "final_state"))
            ix = I.fresh("i", "I")
            facts = frozenset(set(I.facts) | {le(ZERO, ix), lt(ix, H.n)})
            for lst, nm, k in ((states, X, H.g.pos), (perts, DX, H.g.dpos)):
                if P.prove_eq(a.get((ix,)), nm("final_state", k, (ix,)), facts, I.hyps).status == "proved":
                    lst.append(v)
                    break
        return states, perts

    def for_inv(self, I, st, fr, rng):
        return None

    def matches_while(self, I, st, fr):
        return not I.unroll

    def run_while(self, I, st, fr):
        from .ckpt import StepLoop
        H = self.H

        class L(StepLoop):
            def cands(s, I2):
                return [_Inv(I2, H, *self.find(I2, fr))]
        L(None, [], []).run_while(I, st, fr)


class _Inv(ClosedForm):
    def __init__(self, I, H, states, perts):
        g = H.g
        p0, d0 = g.pos, g.dpos
        bufs, scal = {}, {}
        self.H = H
        self.partial = {}
        for s in states:
            for kf in H.fields():
                a = H.get(s, kf)
                ent = content(a)
                if kf[0] == "t":
                    if H.adaptive:
                        fn = lambda k, ix, f=kf[1]: H.tfield(f, add(p0, k))(ix)
                    elif kf[1] == "step_size_history":
                        fn = lambda k, ix, ent=ent: ite(eq(ix[0], ZERO), ite(le(ONE, k), H.h0, ent(ix)), ent(ix))
                    else:
                        fn = lambda k, ix, ent=ent: ent(ix)
                elif kf[1] in KEY:
                    fn = lambda k, ix, f=kf[1]: H.dfield(f, add(p0, k))(ix)
                else:
                    def fn(k, ix, f=kf[1], ent=ent):
                        kk = add(p0, k)
                        now = {"start_state": lambda: X("final_state", sub(kk, ONE), ix), "start_time": lambda: X("final_time", sub(kk, ONE), ix),
                               "step_size": lambda: Used(kk) if H.adaptive else H.h0}.get(f, lambda: X(f, kk, ix))()
                        return ite(le(ONE, k), now, ent(ix))
                bufs[a.buf] = fn
        for s in perts:
            for kf in H.fields():
                if kf[0] == "t":
                    continue
                a = H.get(s, kf)
                ent = content(a)
                if kf[1] in KEY:
                    fn = lambda k, ix, f=kf[1]: H.pfield(f, add(d0, k))(ix)
                else:
                    fn = lambda k, ix, f=kf[1], ent=ent: ite(le(ONE, k), H.pfield(f, add(d0, k))(ix), ent(ix))
                bufs[a.buf] = fn
        scal[(g, "pos")] = lambda k: add(p0, k)
        if perts:
            scal[(g, "dpos")] = lambda k: add(d0, k)
        super().__init__("steps", bufs, scal)
        self.p0 = p0
        for nm in ("h", "phase", "rej", "asked"):
            self.locs.add((g, nm))

    def at(self, I, k, final=False):
        super().at(I, k, final)
        g = self.H.g
        g.h, g.phase, g.rej = None, "idle", 0

    def holds(self, I, k, what):
        ok = super().holds(I, k, what)
        g = self.H.g
        good = g.h is None and g.phase == "idle"
        I.collect.append((f"{what}: no trial pending", P.Result("proved", "structural") if good else P.Result("refuted", "structural", "")))
        return ok and good
