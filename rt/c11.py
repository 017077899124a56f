from common import *
import threading
import numpy as np
import openmdao.api as om
import integ
from mpi4py import MPI
from c13 import Ring, Comm
from rkopenmdao.errors import SetupError
from rkopenmdao import metadata_extractor as MX

CASE_TIMEOUT = 40
SHAPES = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]


def cases(rng, tier):
    """variables: [name, io, tags, kind]; kind: 'all' (replicated), 'dist', or the rank it lives on"""
    k = 0
    while k < (500 if tier == "quick" else 6000):
        k += 1
        R = rng.choice([1, 1, 2, 3])
        real = R == 1 and rng.random() < 0.6
        vs = []
        Q = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.9 else 9
        for j in range(Q):
            where = "all" if real else rng.choice(["all", "dist", "dist", rng.randrange(R)])
            sh = list(rng.choice(SHAPES))
            if rng.random() < 0.6:
                vs += [[f"q{j}_in", "input", [f"q{j}", "step_input_var"], where, sh], [f"q{j}_acc", "input", [f"q{j}", "accumulated_stage_var"], where, sh]]
            vs.append([f"q{j}_out", "output", [f"q{j}", "stage_output_var"], where, sh])
        NP = rng.choice([0, 1, 2, 4])
        for j in range(NP):
            where = "all" if real else rng.choice(["all", "dist", rng.randrange(R)])
            vs.append([f"p{j}_in", "input", [f"p{j}", "time_independent_input_var"], where, list(rng.choice(SHAPES))])
        for j in range(rng.choice([0, 1, 2])):
            vs.append([f"n{j}", rng.choice(["input", "output"]), rng.choice([[], ["foo"], ["stage_output_var"], ["foo", "step_input_var"]]), "all", list(rng.choice(SHAPES))])
        for j in range(rng.choice([0, 1, 1, 1, 2])):
            vs.append([f"t{j}", "input", ["time_variable"], "all", rng.choice([[1], [1], [1, 1], [2]])])
        # mistakes
        if vs and rng.random() < 0.4:
            i = rng.randrange(len(vs))
            what = rng.choice(["drop", "twice", "untag", "foreign", "both"])
            if what == "drop":
                del vs[i]
            elif what == "twice":
                vs.append([vs[i][0] + "b"] + vs[i][1:])
            elif what == "untag":
                vs[i][2] = vs[i][2][:1]
            elif what == "foreign":
                vs[i][2] = vs[i][2] + [rng.choice(["q0", "q1", "p0", "step_input_var", "foo"])]
            elif vs[i][2]:
                vs[i][1] = "input" if vs[i][1] == "output" else "output"
        rng.shuffle(vs)
        req, preq = [f"q{j}" for j in range(Q)], [f"p{j}" for j in range(NP)]
        rng.shuffle(req)
        if rng.random() < 0.15 and len(req) > 1:
            req.pop()
        if rng.random() < 0.1:
            req.append("stage_output_var")
        yield dict(kind="real" if real else "sim", seed=rng.randrange(10**6), R=R, vs=vs, req=req, preq=preq, older=rng.random() < 0.2, cut=rng.randrange(0, 4))


class Comp(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("vs")

    def setup(self):
        for n, io, tags, _, sh in self.options["vs"]:
            (self.add_input if io == "input" else self.add_output)(n, shape=tuple(sh), tags=tags)


class Model:
    """OpenMDAO metadata of one simulated rank"""

    def __init__(self, vs, rank, R, sizes, older):
        self.vs, self.rank = vs, rank
        idx, cnt = {}, {"input": 0, "output": 0}
        for v in vs:
            idx[v[0]] = cnt[v[1]]
            cnt[v[1]] += 1
        tab = {io: np.array([[sizes[v[0]][r] for v in vs if v[1] == io] for r in range(R)], int).reshape(R, cnt[io]) for io in cnt}
        if older:
            self._var_sizes, self._var_allprocs_abs2idx = {"nonlinear": tab}, {"nonlinear": idx}
        else:
            self._var_sizes, self._var_allprocs_abs2idx = tab, idx
        self.shape, self.local = {}, {}

    def get_io_metadata(self, iotypes=("input", "output"), metadata_keys=None, includes=None, excludes=None, is_indep_var=None, is_design_var=None, tags=None, get_remote=False, rank=None, return_rel_names=True):
        io = (iotypes,) if isinstance(iotypes, str) else tuple(iotypes)
        tags = {tags} if isinstance(tags, str) else set(tags or [])
        out = {}
        for n, i, tg, _, _ in self.vs:
            if i in io and (not tags or set(tg) & tags) and (self.local[n] or get_remote):
                d = dict(tags=set(tg), global_shape=self.shape[n][1], shape=self.shape[n][0] if self.local[n] else None)
                out[n] = {k: d[k] for k in metadata_keys or d}
        return out


def expect(vs, local, req, io):
    """None: rejected"""
    out = {}
    roles = ("stage_output_var", "step_input_var", "accumulated_stage_var") if io == "output" else ("time_independent_input_var",)
    for n, i, tags, _, _ in vs:
        t = set(tags) & set(req)
        if i != io or not t:
            continue
        if len(t) != 1:
            return None
        q = t.pop()
        if q in out:
            return None
        e = dict(first=n, local=local[n])
        if local[n]:
            mine = [v for v in vs if q in v[2] and local[v[0]]]
            # a variable with several roles counts for the first one
            got = {r: [] for r in roles}
            for v in mine:
                for r in roles:
                    if r in v[2]:
                        got[r].append(v[0])
                        break
            c = [len(got[r]) for r in roles]
            if c[0] != 1 or (io == "output" and tuple(c[1:]) not in ((0, 0), (1, 1))):
                return None
            e["vars"] = {r: (got[r] or [None])[0] for r in roles}
        out[q] = e
    return out


def check(c, p, vs, local, shape, sizes, rank, R, dist):
    want = expect(vs, local, c["req"], "output")
    times = [v for v in vs if v[1] == "input" and "time_variable" in v[2]]
    tok = len(times) == 0 or (len(times) == 1 and np.prod(times[0][4]) == 1)
    req, preq = list(c["req"]), list(c["preq"])
    try:
        meta = MX.extract_time_integration_metadata(p, req)
    except SetupError:
        need(want is None or not tok, "a valid tagging is rejected")
        return None
    need(want is not None, "an ambiguous, incomplete or half-present tagging is accepted")
    need(tok, "several or non-scalar time variables are accepted")
    need(meta.time_variable == (times[0][0] if times else None), "time variable")
    need(req == c["req"], "the list of quantities is changed")
    need(meta.time_independent_input_size == 0 and meta.time_independent_input_quantity_list == [], "independent inputs before they are added")
    layout(meta.time_integration_quantity_list, meta.time_integration_array_size, want, shape, sizes, rank)
    if not preq:
        return meta, want, {}
    pwant = expect(vs, local, preq, "input")
    ql = list(meta.time_integration_quantity_list)
    try:
        MX.add_time_independent_input_metadata(p, preq, meta)
    except SetupError:
        need(pwant is None, "a valid tagging of the independent inputs is rejected")
        return None
    need(pwant is not None, "an ambiguous or incomplete tagging of the independent inputs is accepted")
    layout(meta.time_independent_input_quantity_list, meta.time_independent_input_size, pwant, shape, sizes, rank)
    need(all(a is b for a, b in zip(ql, meta.time_integration_quantity_list)) and len(ql) == len(meta.time_integration_quantity_list), "state quantities changed by the independent inputs")
    return meta, want, pwant


def layout(ql, size, want, shape, sizes, rank):
    need(sorted(q.name for q in ql) == sorted(want), f"quantities {[q.name for q in ql]} instead of {sorted(want)}")
    pos = 0
    for q in ql:
        e, a = want[q.name], q.array_metadata
        need(a.local == e["local"], "locality")
        if not e["local"]:
            need(a.start_index == a.end_index, "a remote quantity has local entries")
            need(tuple(a.global_shape) == tuple(shape[e["first"]][1]), "global shape of a remote quantity")
            continue
        n = e["vars"][list(e["vars"])[0]]
        sh, gsh = shape[n]
        need(tuple(a.shape) == tuple(sh) and tuple(a.global_shape) == tuple(gsh), "shapes")
        need(a.start_index == pos and a.end_index == pos + int(np.prod(sh)), f"slice {a.start_index}:{a.end_index} at {pos} of {sh}")
        pos = a.end_index
        g0 = 0 if tuple(sh) == tuple(gsh) else sum(sizes[n][:rank])
        need(a.global_start_index == g0 and a.global_end_index == g0 + int(np.prod(sh)), f"global range {a.global_start_index}:{a.global_end_index} instead of {g0}+{np.prod(sh)}")
        for r, v in e["vars"].items():
            need(getattr(q.translation_metadata, r) == v, f"{r} of {q.name}: {getattr(q.translation_metadata, r)}")
    need(size == pos, f"size of the vector {size} instead of {pos}")


def run(c):
    r = np.random.default_rng(c["seed"])
    vs, R = c["vs"], c["R"]
    names = [v[0] for v in vs]
    if len(set(names)) != len(names):
        return
    if c["kind"] == "real":
        p = om.Problem(reports=None)
        k = min(c["cut"], len(vs))
        for j, part in enumerate((vs[:k], vs[k:])):
            if part:
                p.model.add_subsystem(f"c{j}", Comp(vs=part), promotes=["*"])
        with integ.quiet():
            p.setup()
            p.final_setup()
        pre = {n: f"c{0 if i < k else 1}.{n}" for i, n in enumerate(names)}
        got = p.model.get_io_metadata(return_rel_names=True)
        vs2 = []
        for i, v in enumerate(vs):
            a = [n for n in got if n == v[0] or n.endswith("." + v[0])]
            need(len(a) == 1, "harness: variable names")
            vs2.append([a[0]] + v[1:])
        vs2.sort(key=lambda v: list(got).index(v[0]))
        shape = {v[0]: (tuple(v[4]), tuple(v[4])) for v in vs2}
        local = {v[0]: True for v in vs2}
        sizes = {v[0]: [int(np.prod(v[4]))] for v in vs2}
        res = check(c, p, vs2, local, shape, sizes, 0, 1, None)
        if res:
            MX.add_distributivity_information(p, res[0])
            for q in res[0].time_integration_quantity_list + res[0].time_independent_input_quantity_list:
                need(q.array_metadata.distributed is False or q.array_metadata.distributed == False, "distributed on one rank")
        return
    shapes, sizes = {}, {}
    base = {}
    for n, io, tags, where, sh in vs:
        key = tags[0] if tags else n
        if where == "dist" and R > 1:
            if key not in base:
                parts = [int(r.integers(0, 4)) for _ in range(R)]
                if sum(parts) == 0 or max(parts) == sum(parts):
                    parts[0] += 1
                    parts[1] += 1
                base[key] = parts
            parts = base[key]
            shapes[n] = [((x,), (sum(parts),)) for x in parts]
            sizes[n] = parts
        elif isinstance(where, int):
            shapes[n] = [(tuple(sh), tuple(sh))] * R
            sizes[n] = [int(np.prod(sh)) if x == where else 0 for x in range(R)]
        else:
            shapes[n] = [(tuple(sh), tuple(sh))] * R
            sizes[n] = [int(np.prod(sh))] * R
    ring, errs, dists = Ring(R), [None] * R, [None] * R
    ps, locals_ = [], []
    for rank in range(R):
        m = Model(vs, rank, R, sizes, c["older"])
        m.shape = {n: shapes[n][rank] for n in names}
        m.local = {v[0]: not isinstance(v[3], int) or v[3] == rank for v in vs}
        p = type("P", (), {})()
        p.model, p.comm = m, Comm(ring, rank)
        ps.append(p)
    res = [check(c, ps[k], vs, ps[k].model.local, ps[k].model.shape, sizes, k, R, None) for k in range(R)]
    if any(x is None for x in res):
        return

    def work(k):
        try:
            MX.add_distributivity_information(ps[k], res[k][0])
        except Exception as e:
            errs[k] = e
            ring.bar.abort()
    th = [threading.Thread(target=work, args=(k,)) for k in range(R)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for e in errs:
        if e is not None:
            raise e
    for k in range(R):
        meta, want, pwant = res[k]
        for lst, w in ((meta.time_integration_quantity_list, want), (meta.time_independent_input_quantity_list, pwant)):
            for q in lst:
                n = w[q.name]["first"]
                every = [(shapes[n][x][0] if ps[x].model.local[n] else (0,)) == shapes[n][x][1] for x in range(R)]
                need(bool(q.array_metadata.distributed) == (not all(every)), f"distributed flag of {q.name} on rank {k}")


if __name__ == "__main__":
    main(sys.modules[__name__])
