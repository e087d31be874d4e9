"""C06 Merging two sorted blocks: every strategy and configuration is lowered to IR (kernels included) and interpreted for every
interleaving (weak order) of the keys of two sorted blocks."""
import json, os, random
import numpy as np
from ..trace import *
from ..common import *
from ..interp import lift_arr, isobj, Unsupported, Undecided
from .. import graph as G

LOW = "the first result is the lower part of all keys, sorted, and the second the upper part"
VALS = "every value field follows its key, and equal keys of the first block come first"
IDX = "a merge strategy returns all keys sorted and the position of each in the two blocks, the first block winning ties"
MEM = "a merge kernel touches only its buffers"
DT = "the result keeps the types and shapes of the inputs"
BAD = "a configuration value outside the documented choices is rejected"
WHERE = ("xtructure/bgpq/_merge.py", 1, "merge_sort_split")

P = "XTRUCTURE_BGPQ_MERGE_"
# name -> environment of the worker; XV_BACKEND: platform lowered for
CONFIGS = {
    "sort": {},
    "sort, gather by concatenation": {"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"},
    "sort, unstable heap sorts": {"XTRUCTURE_BGPQ_SORT_STABLE": "false"},
    "xla": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "xla", "XTRUCTURE_BGPQ_VALUE_REORDER": "direct"},
    "parallel": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel"},
    "parallel, block 1": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel", P + "BLOCK_SIZE": "1"},
    "parallel, block 2": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "pallas", P + "BLOCK_SIZE": "2"},
    "parallel, block 3, loop": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel", P + "BLOCK_SIZE": "3", P + "UNROLL_MAX": "0"},
    "parallel, block 4, concat": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel", P + "BLOCK_SIZE": "4", P + "UNROLL_MAX": "4", "XTRUCTURE_BGPQ_VALUE_REORDER": "concat_gather"},
    "gpu default": {"XV_BACKEND": "gpu"},
    "gpu, warps and stages": {"XV_BACKEND": "gpu", P + "NUM_WARPS": "2", P + "NUM_STAGES": "1", P + "BLOCK_SIZE": "auto"},
    "gpu, sort": {"XV_BACKEND": "gpu", "XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"},
    "gpu, values on": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "on", P + "BLOCK_SIZE": "4"},
    "gpu, values, pad": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "parallel", P + "VALUE_PACKING": "pad", P + "BLOCK_SIZE": "2"},
    "gpu, values, scalar": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "kv_parallel", P + "VALUE_PACKING": "scalar", P + "BLOCK_SIZE": "3"},
    "gpu, values, shard": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "off", P + "VALUE_BACKEND_SORTSPLIT": "kv", P + "VALUE_PACKING": "shard", P + "BLOCK_SIZE": "1", P + "UNROLL_MAX": "0"},
    "gpu, values, few scalars": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "pallas", P + "VALUE_PACKING": "auto", P + "VALUE_SCALAR_MAX": "3", P + "BLOCK_SIZE": "8", P + "UNROLL_MAX": "4"},
    "gpu, values by size": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "auto", P + "VALUE_AUTO_MIN_BATCH": "3", P + "BLOCK_SIZE": "4"},
    "gpu, values off for splits": {"XV_BACKEND": "gpu", P + "VALUE_BACKEND": "on", P + "VALUE_BACKEND_SORTSPLIT": "none", P + "BLOCK_SIZE": "2"},
    "cpu, values requested": {P + "VALUE_BACKEND": "on"},
    "tpu": {"XV_BACKEND": "tpu"},
    "bad": {},
}
BADENV = [("XTRUCTURE_BGPQ_VALUE_REORDER", "sideways", {}), (P + "VALUE_BACKEND", "maybe", {}), (P + "BLOCK_SIZE", "0", {"par": 1}), (P + "BLOCK_SIZE", "x", {"par": 1}),
          (P + "UNROLL_MAX", "-1", {"par": 1}), (P + "NUM_WARPS", "0", {"par": 1})]


def run(ck):
    ck.assume += ["blocks are sorted and of representative small lengths; every interleaving (weak order) of their keys is enumerated for the small lengths and spread evenly for the longer; NaN keys excluded",
                  "kernel programs are interpreted one after another in both orders, plain reads also against the memory at kernel start; kernel inputs are whole arrays"]
    ck.fan([(k, dict(e, XV_CFG=json.dumps(e))) for k, e in CONFIGS.items()])


def interleavings(n, m):
    """all weak orders of two sorted blocks: ranks of the first, ranks of the second"""
    def go(i, j, r, a, b):
        if i == n and j == m:
            yield tuple(a), tuple(b)
            return
        for x in range(n - i + 1):
            for y in range(m - j + 1):
                if x + y:
                    yield from go(i + x, j + y, r + 1, a + [r] * x, b + [r] * y)
    return list(go(0, 0, 0, [], []))


def spread(xs, k, seed=0):
    return xs if len(xs) <= k else random.Random(seed).sample(xs, k)


def values(kind, n):
    """value batch of n rows and its leaves"""
    from xtructure import xtructure_dataclass, FieldDescriptor as F
    if kind not in _CLS:
        if kind == "plain":
            @xtructure_dataclass
            class MvPlain:
                a: F.scalar(dtype=jnp.uint32)
        elif kind == "wide":
            @xtructure_dataclass
            class MvIn:
                p: F.scalar(dtype=jnp.bool_)
                q: F.tensor(dtype=jnp.uint8, shape=(2, 3))

            @xtructure_dataclass
            class MvPlain:
                t: F.tensor(dtype=jnp.float32, shape=(3,))
                f: F.tensor(dtype=jnp.int16, shape=(4,))
                n: F.scalar(dtype=MvIn)
                x: F.tensor(dtype=jnp.float16, shape=(7, 1))
        _CLS[kind] = MvPlain
    K = _CLS[kind]
    return jax.eval_shape(lambda: K.default((n,)))


_CLS = {}


class Keys:
    """keys of one interleaving: opaque values ordered as their ranks; the special ranks are the extreme constants of the type"""
    def __init__(self, dt):
        self.dt = jnp.dtype(dt)
        fl = G.is_float(self.dt)
        fi = jnp.finfo(self.dt) if fl else jnp.iinfo(self.dt)
        self.ext = {"max": np.asarray(fi.max, self.dt), "min": np.asarray(fi.min, self.dt)}
        if fl:
            self.ext.update(inf=np.asarray(np.inf, self.dt), ninf=np.asarray(-np.inf, self.dt))
        self.nodes = {}

    def node(self, r):
        if r not in self.nodes:
            self.nodes[r] = G.const(self.ext[r], self.dt) if isinstance(r, str) else G.src("key", (r,), self.dt)
        return self.nodes[r]

    def order(self):
        where = {self.node(r): (1, r) for r in list(range(12))}
        lim = {"max": float(self.ext["max"]), "min": float(self.ext["min"])}

        def val(n):
            if n in where:
                return where[n]
            if n.op == "const" and n.dtype == self.dt:
                v = float(G.cval(n))
                if v >= lim["max"]:
                    return (2, v)
                if v <= lim["min"]:
                    return (0, v)
            return None

        def order(op, a, b):
            x, y = val(a), val(b)
            if x is None or y is None:
                return None
            return x == y if op == "eq" else x < y
        fin = {G.unop("isfinite", self.node(r)): G.const(True, G.BOOL) for r in range(12)} if G.is_float(self.dt) else {}
        return G.partition(fin, order)


def key_rows(n, m, dt, quick):
    """(keys of the first block, keys of the second block) as ranks"""
    out = []
    base = interleavings(n, m)
    cap = 26 if quick else 400
    for a, b in spread(base, cap):
        out.append((a, b))
    hi = ["inf", "max"] if G.is_float(jnp.dtype(dt)) else ["max"]
    lo = ["ninf", "min"] if G.is_float(jnp.dtype(dt)) else ["min"]
    rnd = random.Random(7)
    more = []
    for a, b in base:                       # the top/bottom key replaced by an extreme constant, in one or both blocks
        top = max(list(a) + list(b), default=-1)
        for h in hi:
            more.append((tuple(h if x == top else x for x in a), tuple(h if x == top else x for x in b)))
            more.append((tuple(h if x >= top - 1 else x for x in a), tuple(h if x >= top else x for x in b)))
        for l in lo:
            more.append((tuple(l if x == 0 else x for x in a), tuple(l if x == 0 else x for x in b)))
    if len(hi) == 2:                        # finite maximum next to infinite padding
        for a, b in base:
            top = max(list(a) + list(b), default=-1)
            f = lambda x: "inf" if x == top else "max" if x == top - 1 else x
            more.append((tuple(map(f, a)), tuple(map(f, b))))
    out += spread(more, cap // 2, 1)
    return out


RANK = {"ninf": -3, "min": -2, "max": 100, "inf": 101}
rk = lambda r: RANK.get(r, r)


def merged(a, b):
    """positions (block, index) of the stable merge"""
    cells = [(rk(r), 0, i) for i, r in enumerate(a)] + [(rk(r), 1, i) for i, r in enumerate(b)]
    return [(s, i) for _, s, i in sorted(cells)]


def lengths(quick):
    yield from [(2, 2), (3, 3), (1, 1), (1, 3), (3, 1), (4, 4), (2, 5), (0, 2), (2, 0), (0, 0)]
    if not quick:
        yield from [(5, 2), (4, 3), (5, 5), (1, 8), (8, 1), (0, 1), (6, 6)]


def part(ck, label):
    if label == "bad":
        return bad(ck)
    quick = not ck.thorough
    gpu = os.environ.get("XV_BACKEND") == "gpu"
    from xtructure.bgpq._merge import merge_sort_split
    import xtructure.bgpq._merge as M
    from xtructure.bgpq import merge_split as S
    kv = M.merge_arrays_parallel_kv if hasattr(M, "merge_arrays_parallel_kv") else __import__("xtructure.bgpq.merge_split.parallel", fromlist=["x"]).merge_arrays_parallel_kv
    dts = ["float32", "bfloat16", "int32", "uint8", "float16"]
    for j, (n, m) in enumerate(lengths(quick)):
        for dt in ([dts[0], dts[1 + j % 4]] if quick else dts):
            kinds = (["wide"] if (n, m) in ((2, 2), (1, 3), (2, 5), (0, 2), (0, 0)) else ["plain"]) if quick and dt == "float32" else ["plain", "wide"] if dt == "float32" else ["plain"]
            for kind in kinds:
                split(ck, label, merge_sort_split, n, m, dt, kind, quick)
                if gpu:
                    pairs(ck, label, kv, n, m, dt, kind, quick)
            if label in ("sort", "xla", "gpu, sort"):
                indexed(ck, label, S.merge_sort_split_idx, "sort", n, m, dt, quick)
                if label == "sort":
                    indexed(ck, label, S.merge_arrays_indices_loop, "loop", n, m, dt, quick)
            else:
                indexed(ck, label, S.merge_arrays_parallel, "parallel", n, m, dt, quick)


def interp(order, stale):
    I = Interp()
    I.program_order, I.stale = order, stale
    return I


class Case:
    def __init__(self, n, m, dt, kind=None):
        G.reset()
        self.n, self.m, self.dt, self.kind = n, m, dt, kind
        self.A = sds((n,), jnp.dtype(dt))
        self.B = sds((m,), jnp.dtype(dt))
        if kind:
            self.va, self.vb = values(kind, n), values(kind, m)
        self.K = Keys(dt)

    def inputs(self, a, b):
        g = lambda rs: np.array([self.K.node(r) for r in rs] + [None], dtype=object)[:-1]
        inp = {"ak": g(a), "bk": g(b)}
        if self.kind:
            for s, v in (("a", self.va), ("b", self.vb)):
                for p, l in leaf_paths(v):
                    inp[f"{s}v.{p}"] = src_array(f"{s}v.{p}", l.shape, l.dtype)
        return inp

    def gather(self, inp, p, cells, shape):
        o = np.empty((len(cells),) + shape, dtype=object)
        for j, (s, i) in enumerate(cells):
            src = inp[("av." if s == 0 else "bv.") + p]
            for ix in np.ndindex(*shape):
                o[(j,) + ix] = src[(i,) + ix]
        return o


def show(a, b):
    return f"keys {list(a)} | {list(b)}"


def each(ck, label, what, prog, C, quick, judge, rule, where):
    for k, (a, b) in enumerate(key_rows(C.n, C.m, C.dt, quick)):
        inp = C.inputs(a, b)
        inst = f"{label}: {what}, lengths {C.n} and {C.m}, {C.dt}{', ' + C.kind + ' values' if C.kind else ''}, {show(a, b)}"
        first = True
        for order, stale in ([(None, False), ("reverse", False), (None, True)] if k % 5 == 0 else [(None, False)]):
            I = interp(order, stale)
            try:
                with C.K.order():
                    R = prog.run(inputs=inp, interp=I)
                    judge(R, inst + ("" if first else f" (programs {order or 'ascending'}{', reads as at the start' if stale else ''})"), a, b, inp)
            except Undecided as e:
                ck.ob(rule, inst, False, f"the order of the keys does not decide the result ({e})", where)
                break
            except Unsupported as e:
                ck.undecided(inst, e)
                break
            ck.saw(I)
            if I.kernels or I.oob:
                w = I.oob[0][1] if I.oob else where
                ck.ob(MEM, inst, not I.oob, f"kernel {I.oob[0][2]} outside its buffer" if I.oob else "", w)
            if not I.kernels:
                break
            first = False


def lowered(ck, rule, inst, fn, args, names):
    try:
        return Prog(fn, args, names)
    except TraceError as e:
        ck.crash(rule, inst, e)
        return None


def split(ck, label, fn, n, m, dt, kind, quick):
    C = Case(n, m, dt, kind)
    inst = f"{label}: split, lengths {n} and {m}, {dt}, {kind} values"
    p = lowered(ck, LOW, inst, lambda ak, av, bk, bv: fn(ak, av, bk, bv), (C.A, C.va, C.B, C.vb), ["ak", "av", "bk", "bv"])
    if p is None:
        return
    o = p.oshape
    ck.ob(DT, inst, len(o) == 4 and o[0].shape == (n,) and o[2].shape == (m,) and o[0].dtype == C.A.dtype and o[2].dtype == C.A.dtype
          and spec(o[1]) == spec(C.va) and spec(o[3]) == spec(C.vb), f"returns {o}", WHERE)

    def judge(R, inst, a, b, inp):
        cells = merged(a, b)
        for k, cs in ((0, cells[:n]), (2, cells[n:])):
            exp = np.array([C.K.node((a if s == 0 else b)[i]) for s, i in cs] + [None], dtype=object)[:-1]
            ck.eq(LOW, inst, R.outs[str(k)][0], exp, WHERE)
            for q, l in leaf_paths(C.va):
                ck.eq(VALS, inst + f", field {q}", R.outs[f"{k + 1}.{q}"][0], C.gather(inp, q, cs, l.shape[1:]), WHERE)
    each(ck, label, "split", p, C, quick, judge, LOW, WHERE)


def indexed(ck, label, fn, name, n, m, dt, quick):
    C = Case(n, m, dt)
    inst = f"{label}: strategy {name}, lengths {n} and {m}, {dt}"
    w = ("xtructure/bgpq/merge_split/" + {"sort": "split", "loop": "loop", "parallel": "parallel"}[name] + ".py", 1, fn.__name__)
    p = lowered(ck, IDX, inst, lambda ak, bk: fn(ak, bk), (C.A, C.B), ["ak", "bk"])
    if p is None:
        return
    o = p.oshape
    ck.ob(DT, inst, o[0].shape == (n + m,) and o[0].dtype == C.A.dtype and o[1].shape == (n + m,) and jnp.issubdtype(o[1].dtype, jnp.integer), f"returns {o}", w)

    def judge(R, inst, a, b, inp):
        cells = merged(a, b)
        exp = np.array([C.K.node((a if s == 0 else b)[i]) for s, i in cells] + [None], dtype=object)[:-1]
        ck.eq(IDX, inst, R.outs["0"][0], exp, w)
        ck.eq(IDX, inst + ", positions", R.outs["1"][0], np.array([i + s * n for s, i in cells], dtype=o[1].dtype), w)
    each(ck, label, "strategy " + name, p, C, quick, judge, IDX, w)


def pairs(ck, label, fn, n, m, dt, kind, quick):
    C = Case(n, m, dt, kind)
    inst = f"{label}: key-value strategy, lengths {n} and {m}, {dt}, {kind} values"
    w = ("xtructure/bgpq/merge_split/parallel.py", 1, "merge_arrays_parallel_kv")
    p = lowered(ck, VALS, inst, lambda ak, av, bk, bv: fn(ak, av, bk, bv), (C.A, C.va, C.B, C.vb), ["ak", "av", "bk", "bv"])
    if p is None:
        return
    o = p.oshape
    ck.ob(DT, inst, o[0].shape == (n + m,) and o[0].dtype == C.A.dtype and spec(o[1]) == spec(values(kind, n + m)), f"returns {o}", w)

    def judge(R, inst, a, b, inp):
        cells = merged(a, b)
        exp = np.array([C.K.node((a if s == 0 else b)[i]) for s, i in cells] + [None], dtype=object)[:-1]
        ck.eq(LOW, inst, R.outs["0"][0], exp, w)
        for q, l in leaf_paths(C.va):
            ck.eq(VALS, inst + f", field {q}", R.outs[f"1.{q}"][0], C.gather(inp, q, cells, l.shape[1:]), w)
    each(ck, label, "key-value strategy", p, C, quick, judge, VALS, w)


def bad(ck):
    from ..hashkinds import env
    from xtructure.bgpq._merge import merge_sort_split
    from xtructure.bgpq.merge_split import merge_arrays_parallel
    C = Case(2, 2, "float32", "plain")
    for k, v, o in BADENV:
        with env(**{k: v}):
            if o:
                rejects(ck, BAD, f"{k}={v}", lambda a, b: merge_arrays_parallel(a, b), (C.A, C.B), WHERE, (ValueError,))
            else:
                rejects(ck, BAD, f"{k}={v}", lambda ak, av, bk, bv: merge_sort_split(ak, av, bk, bv), (C.A, C.va, C.B, C.vb), WHERE, (ValueError,))
