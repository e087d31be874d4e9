"""Abstract interpreter for jaxprs over the value-graph domain.

Arrays are numpy arrays: of concrete numbers where the analysis knows the value (constant propagation), otherwise object
arrays of `graph.Node`.  Control flow: `cond` joins its branches with a selection node; `while`/`scan` with a condition the
analysis can decide from constants is unrolled, any other loop is summarised: its carried state becomes fresh phi tokens,
cond and body are interpreted once, and the loop is recorded for the rules.
"""
from __future__ import annotations
import itertools
import numpy as np
import jax
from jax.extend import core as jcore
from . import graph as G
from .graph import Node

UNROLL_LIMIT = 300
from jax._src import source_info_util as _siu


class Unsupported(Exception):
    pass


class Undecided(Unsupported):
    """control of a kernel depends on something the partition does not fix"""


class Endless(Exception):
    """a loop did not end within the bound the rule allows"""
    def __init__(self, eqn, n):
        self.eqn, self.n = eqn, n
        super().__init__(f"loop continues after {n} iterations")


class Loop:
    """summary of a data-dependent loop"""
    def __init__(self, id, eqn, init, phis, cond, body, kind):
        self.id, self.eqn, self.init, self.phis, self.cond, self.body, self.kind = id, eqn, init, phis, cond, body, kind


def rel(fn):
    return fn[fn.index("/xtructure/") + 1:]


_LOC = {}


def stack_of(eqn):
    """repository frames (innermost first) that emitted an equation"""
    k = id(eqn)
    r = _LOC.get(k)
    if r is None:
        try:
            fr = [(rel(f.file_name), f.start_line, f.function_name) for f in _siu.user_frames(eqn.source_info.traceback)
                  if "/xtructure/" in f.file_name and "/verif/" not in f.file_name]
        except Exception:
            fr = []
        r = _LOC[k] = (eqn, fr)
    return r[1]


def loc(eqn):
    """(file, line, function) of an equation: innermost frame inside the repository"""
    if eqn is None:
        return ("?", 0, "?")
    f = stack_of(eqn)
    return f[0] if f else ("?", 0, "?")


def isobj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def lift_arr(a, dtype=None):
    """object array of nodes"""
    if isobj(a):
        return a
    if isinstance(a, Node):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    a = np.asarray(a)
    dt = np.dtype(dtype) if dtype is not None else a.dtype
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), np.ascontiguousarray(a.astype(dt) if a.dtype != dt else a).reshape(-1)
    for i in range(af.size):
        of[i] = G.const(af[i], dt)
    return of.reshape(a.shape)


def settle(o, dtype):
    """back to a concrete array when every element is constant"""
    if not isobj(o):
        return o
    f = o.reshape(-1)
    for n in f:
        if n.op != "const":
            return o
    r = np.empty(f.shape, dtype=np.dtype(dtype))
    for i, n in enumerate(f):
        r[i] = G.cval(n)
    return r.reshape(o.shape)


def map1(f, a, dtype_out):
    o = np.empty(a.shape, dtype=object)
    of, af = o.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return settle(of.reshape(a.shape), dtype_out)


def map2(f, a, b, dtype_out):
    a, b = np.broadcast_arrays(a, b)
    o = np.empty(a.shape, dtype=object)
    of, af, bf = o.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i], bf[i])
    return settle(of.reshape(a.shape), dtype_out)


BIN = {"add": "add", "add_any": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem", "max": "max", "min": "min", "and": "and", "or": "or",
       "xor": "xor", "eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge", "shift_left": "shl",
       "shift_right_logical": "shr", "shift_right_arithmetic": "sar", "pow": "pow", "atan2": "atan2", "nextafter": "nextafter",
       "eq_to": "eq", "lt_to": "lt", "le_to": "le"}
UN = {"neg": "neg", "not": "not", "abs": "abs", "sign": "sign", "exp": "exp", "log": "log", "sqrt": "sqrt", "floor": "floor", "ceil": "ceil",
      "is_finite": "isfinite", "population_count": "popcnt", "clz": "clz", "log1p": "log1p", "tanh": "tanh", "exp2": "exp2",
      "round": "round", "rsqrt": "rsqrt", "logistic": "logistic", "erf": "erf", "erf_inv": "erf_inv", "sin": "sin", "cos": "cos", "expm1": "expm1", "cbrt": "cbrt", "square": "square"}
IDENT = {"stop_gradient", "copy", "copy_p", "optimization_barrier", "sharding_constraint", "reduce_precision", "pvary", "mesh_cast", "squeeze_", "device_put"}


class Interp:
    def __init__(self, unroll=UNROLL_LIMIT):
        self.loops = []
        self.unroll = unroll
        self.eqns = 0
        self.funcs = set()          # (file, function) analysed
        self.scatters = []          # every scatter executed abstractly: dict(eqn, operand, targets, updates, combiner)
        self.gathers = []
        self.sorts = []
        self.opaque = []            # primitives treated as uninterpreted
        self.path = []              # stack of eqns
        self.record = True
        self.guarded = 0            # >0: loops with undecided conditions are unrolled under their guard, at most so often
        self.iters = []             # (loop equation, number of iterations until the condition is false)
        self.pids = []              # kernel programs being interpreted
        self.kernels = []           # (pallas_call equation, number of programs)
        self.oob = []               # kernel accesses outside their buffer: (call, location, kind)
        self.max_programs = 4096
        self.program_order = None   # None: ascending, "reverse", or a function on the list of program ids
        self.stale = False          # plain kernel reads see the memory as it was before the kernel started
        self.opaque_calls = ()      # array-library functions kept as uninterpreted calls

    # ------------------------------------------------------------ driver
    def run(self, closed, args):
        return self.jaxpr(closed.jaxpr, closed.consts, args)

    def jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return np.asarray(v.val, dtype=v.aval.dtype) if not isinstance(v.val, np.ndarray) else v.val
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            if not isobj(c) and not isinstance(c, Ref):
                c = np.asarray(c)
            env[v] = c
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        self.eqns += 1
        name = eqn.primitive.name
        prev = G.CUR[0]
        G.CUR[0] = eqn
        try:
            l = loc(eqn)
            self.funcs.add((l[0], l[2]))
            out = self._eqn(eqn, name, ins)
        finally:
            G.CUR[0] = prev
        self._check(eqn, out)
        return out

    def _check(self, eqn, out):
        outs = out if eqn.primitive.multiple_results else [out]
        for v, o in zip(eqn.outvars, outs):
            if isinstance(o, Ref) or not hasattr(v.aval, "shape"):
                continue
            assert tuple(o.shape) == tuple(v.aval.shape), (eqn.primitive.name, o.shape, v.aval.shape)

    def _eqn(self, eqn, name, ins):
        p = eqn.params
        if name in IDENT:
            return ins if eqn.primitive.multiple_results else ins[0]
        if name in BIN:
            return self.binary(BIN[name], ins[0], ins[1], eqn)
        if name in UN:
            return self.unary(UN[name], ins[0], eqn)
        m = getattr(self, "p_" + name.replace("-", "_"), None)
        if m is not None:
            return m(eqn, p, *ins)
        return self.generic(eqn, ins)

    # ------------------------------------------------------------ elementwise
    def binary(self, op, a, b, eqn):
        od = eqn.outvars[0].aval.dtype
        if not isobj(a) and not isobj(b):
            try:
                return np.asarray(G.np_binop(op, a, b)).astype(od).reshape(eqn.outvars[0].aval.shape)
            except KeyError:
                return self.generic(eqn, [a, b])
        return map2(lambda x, y: G.binop(op, x, y), lift_arr(a), lift_arr(b), od)

    def unary(self, op, a, eqn):
        od = eqn.outvars[0].aval.dtype
        return map1(lambda x: G.unop(op, x), lift_arr(a), od)

    def p_integer_pow(self, eqn, p, a):
        return map1(lambda x: G.unop("ipow", x, (p["y"],)), lift_arr(a), eqn.outvars[0].aval.dtype)

    def p_convert_element_type(self, eqn, p, a):
        dt = np.dtype(p["new_dtype"]) if not hasattr(p["new_dtype"], "_rules") else p["new_dtype"]
        if not isobj(a):
            if np.dtype(a.dtype).kind == "f" and dt.kind in "iu":
                return settle(map1(lambda x: G.cvt(x, dt), lift_arr(a), dt), dt)
            with np.errstate(all="ignore"):
                return a.astype(dt)
        return map1(lambda x: G.cvt(x, dt), a, dt)

    def p_bitcast_convert_type(self, eqn, p, a):
        dt = np.dtype(p["new_dtype"])
        od = np.dtype(a.dtype) if not isobj(a) else np.dtype(eqn.invars[0].aval.dtype)
        oshape = eqn.outvars[0].aval.shape
        if not isobj(a):
            a = np.ascontiguousarray(a)
            if od.itemsize == dt.itemsize:
                return a.view(dt).reshape(oshape)
            return np.frombuffer(a.tobytes(), dtype=dt).reshape(oshape)
        if od.itemsize == dt.itemsize:
            return map1(lambda x: G.bitcast(x, dt), a, dt)
        if od.itemsize > dt.itemsize:
            k = od.itemsize // dt.itemsize
            o = np.empty(a.shape + (k,), dtype=object)
            for i in np.ndindex(*a.shape):
                for j in range(k):
                    o[i + (j,)] = G.byte_of(a[i], j, dt)
            return settle(o, dt)
        o = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            o[i] = G.join_bytes(list(a[i]), dt)
        return settle(o, dt)

    def p_select_n(self, eqn, p, c, *cases):
        od = eqn.outvars[0].aval.dtype
        shape = eqn.outvars[0].aval.shape
        if not isobj(c):
            c = np.broadcast_to(c, shape)
            if all(not isobj(x) for x in cases):
                ci = c.astype(int)
                out = np.array(cases[0], copy=True)
                for k, x in enumerate(cases[1:], 1):
                    out = np.where(ci == k, x, out)
                return out.astype(od)
            cs = [lift_arr(x).reshape(-1) for x in cases]
            o = np.empty(int(np.prod(shape)), dtype=object)
            cf = c.reshape(-1).astype(int)
            for i in range(o.size):
                o[i] = cs[cf[i]][i]
            return settle(o.reshape(shape), od)
        c = np.broadcast_to(c, shape).reshape(-1)
        cs = [lift_arr(x).reshape(-1) for x in cases]
        o = np.empty(c.size, dtype=object)
        for i in range(c.size):
            if c[i].dtype == G.BOOL:
                o[i] = G.ite(c[i], cs[1][i], cs[0][i])
            else:
                r = cs[-1][i]
                for k in range(len(cs) - 2, -1, -1):
                    r = G.ite(G.binop("eq", c[i], G.const(k, c[i].dtype)), cs[k][i], r)
                o[i] = r
        return settle(o.reshape(shape), od)

    def p_clamp(self, eqn, p, lo, x, hi):
        od = eqn.outvars[0].aval.dtype
        lo, hi = lift_arr(np.broadcast_to(lo, x.shape)), lift_arr(np.broadcast_to(hi, x.shape))
        t = map2(lambda a, b: G.binop("max", a, b), lift_arr(x), lo, od)
        return map2(lambda a, b: G.binop("min", a, b), lift_arr(t), hi, od)

    # ------------------------------------------------------------ structure
    def p_broadcast_in_dim(self, eqn, p, a, *dyn):
        shape, bd = p["shape"], p["broadcast_dimensions"]
        new = [1] * len(shape)
        for i, d in enumerate(bd):
            new[d] = a.shape[i]
        return np.broadcast_to(np.asarray(a).reshape(new), shape)

    def p_reshape(self, eqn, p, a, *dyn):
        assert p.get("dimensions") is None
        return np.ascontiguousarray(a).reshape(p["new_sizes"])

    def p_squeeze(self, eqn, p, a):
        return np.asarray(a).reshape(eqn.outvars[0].aval.shape)

    def p_expand_dims(self, eqn, p, a):
        return np.asarray(a).reshape(eqn.outvars[0].aval.shape)

    def p_transpose(self, eqn, p, a):
        return np.transpose(a, p["permutation"])

    def p_rev(self, eqn, p, a):
        return np.flip(a, p["dimensions"])

    def p_concatenate(self, eqn, p, *xs):
        if any(isobj(x) for x in xs):
            xs = [lift_arr(x) for x in xs]
        return settle(np.concatenate(xs, axis=p["dimension"]), eqn.outvars[0].aval.dtype)

    def p_slice(self, eqn, p, a):
        st = p["strides"] or (1,) * a.ndim
        return a[tuple(slice(s, l, k) for s, l, k in zip(p["start_indices"], p["limit_indices"], st))]

    def p_split(self, eqn, p, a):
        out, k = [], 0
        for s in p["sizes"]:
            ix = [slice(None)] * a.ndim
            ix[p["axis"]] = slice(k, k + s)
            out.append(a[tuple(ix)])
            k += s
        return out

    # ------------------------------------------------------------ random keys: derivation terms
    def p_random_wrap(self, eqn, p, a):
        a = lift_arr(a)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            w = list(a[i])
            k = w[0].args[0] if w[0].op == "keyword" else None
            whole = k is not None and all(x.op == "keyword" and x.args == (k, j) for j, x in enumerate(w))
            out[i] = k if whole else G.mk("key", tuple(w), np.uint64)
        return out

    def p_random_unwrap(self, eqn, p, a):
        out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            k = a[i[:-1]]
            out[i] = k.args[i[-1]] if k.op == "key" else G.mk("keyword", (k, i[-1]), np.uint32)
        return out

    def p_random_seed(self, eqn, p, a):
        return map1(lambda s: G.mk("keyseed", (s,), np.uint64), lift_arr(a), np.uint64)

    def p_random_fold_in(self, eqn, p, k, d):
        return map2(lambda x, y: G.mk("keyfold", (x, y), np.uint64), k, lift_arr(d), np.uint64)

    def p_random_split(self, eqn, p, a):
        out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            j = i[a.ndim:]
            # the j-th key of a split does not depend on how many are asked for
            out[i] = G.mk("keysplit", (a[i[:a.ndim]], int(np.ravel_multi_index(j, p["shape"])) if j else 0), np.uint64)
        return out

    def p_random_bits(self, eqn, p, a):
        dt = eqn.outvars[0].aval.dtype
        out = np.empty(eqn.outvars[0].aval.shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = G.mk("rbits", (a[i[:a.ndim]], tuple(p["shape"]), i[a.ndim:]), dt)
        return out

    def p_tile(self, eqn, p, a):
        return np.tile(a, p["reps"])

    def p_iota(self, eqn, p, *dyn):
        shape, d = p["shape"], p["dimension"]
        r = np.arange(shape[d]).astype(p["dtype"])
        return np.broadcast_to(r.reshape([-1 if i == d else 1 for i in range(len(shape))]), shape)

    def p_pad(self, eqn, p, a, v):
        od = eqn.outvars[0].aval.dtype
        cfg = p["padding_config"]
        oshape = eqn.outvars[0].aval.shape
        if not isobj(a) and not isobj(v):
            o = np.full(oshape, v, dtype=od)
        else:
            a = lift_arr(a)
            o = np.empty(oshape, dtype=object)
            o.reshape(-1)[:] = [lift_arr(v).reshape(-1)[0]] * o.size if o.size else []
            o = np.full(oshape, lift_arr(v).reshape(-1)[0], dtype=object)
        src_ix, dst_ix = [], []
        for n, (lo, hi, ins) in zip(a.shape, cfg):
            pos = [lo + i * (ins + 1) for i in range(n)]
            keep = [(i, q) for i, q in enumerate(pos)]
            src_ix.append(keep)
        for combo in itertools.product(*src_ix):
            q = tuple(c[1] for c in combo)
            if all(0 <= x < s for x, s in zip(q, oshape)):
                o[q] = a[tuple(c[0] for c in combo)]
        return settle(o, od)

    # ------------------------------------------------------------ reductions
    def _reduce(self, eqn, axes, a, op, init):
        od = eqn.outvars[0].aval.dtype
        axes = tuple(axes)
        keep = [i for i in range(a.ndim) if i not in axes]
        t = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in axes]))])
        o = np.empty(t.shape[:-1], dtype=object)
        t = lift_arr(t, eqn.invars[0].aval.dtype)
        for i in np.ndindex(*t.shape[:-1]):
            r = G.reduce_many(op, t[i]) if len(t[i]) else None
            if r is None:
                for x in t[i]:
                    r = x if r is None else G.binop(op, r, x)
            o[i] = r if r is not None else G.const(init(od), od)
        return settle(o, od)

    def p_reduce_sum(self, eqn, p, a): return self._reduce(eqn, p["axes"], a, "add", lambda d: 0)
    def p_reduce_prod(self, eqn, p, a): return self._reduce(eqn, p["axes"], a, "mul", lambda d: 1)
    def p_reduce_and(self, eqn, p, a): return self._reduce(eqn, p["axes"], a, "and", lambda d: -1 if d != bool else True)
    def p_reduce_or(self, eqn, p, a): return self._reduce(eqn, p["axes"], a, "or", lambda d: 0)
    def p_reduce_xor(self, eqn, p, a): return self._reduce(eqn, p["axes"], a, "xor", lambda d: 0)

    def p_reduce_max(self, eqn, p, a):
        return self._reduce(eqn, p["axes"], a, "max", lambda d: -np.inf if G.is_float(d) else (False if d == bool else np.iinfo(d).min))

    def p_reduce_min(self, eqn, p, a):
        return self._reduce(eqn, p["axes"], a, "min", lambda d: np.inf if G.is_float(d) else (True if d == bool else np.iinfo(d).max))

    def _monoid(self, jx):
        """the binary operation a one-equation reducer applies to its two arguments, if it is one of the associative ones"""
        j = getattr(jx, "jaxpr", jx)
        if len(j.eqns) == 1 and len(j.invars) == 2 and set(map(id, j.eqns[0].invars)) == set(map(id, j.invars)) and list(j.outvars) == list(j.eqns[0].outvars):
            op = BIN.get(j.eqns[0].primitive.name)
            return op if op in ("add", "mul", "and", "or", "xor", "max", "min") else None
        return None

    def p_reduce(self, eqn, p, *ins):
        """a reduction with its own reducer: the operation itself when it is a plain one, else a fold from the initial value"""
        n = len(ins) // 2
        xs, init = ins[:n], ins[n:]
        dims, shape = tuple(p["dimensions"]), ins[0].shape
        keep = [i for i in range(len(shape)) if i not in dims]
        cnt = int(np.prod([shape[i] for i in dims]))
        op = self._monoid(p["jaxpr"]) if n == 1 else None
        if op is None and cnt * int(np.prod([shape[i] for i in keep])) > 20000:
            return self.generic(eqn, ins)
        flat = [lift_arr(np.transpose(x, keep + list(dims)).reshape([shape[i] for i in keep] + [cnt]), v.aval.dtype) for x, v in zip(xs, eqn.invars)]
        outs = [np.empty(v.aval.shape, dtype=object) for v in eqn.outvars]
        ini = [lift_arr(c, v.aval.dtype)[()] for c, v in zip(init, eqn.outvars)]
        for i in np.ndindex(*outs[0].shape):
            if op is not None:
                r = G.reduce_many(op, flat[0][i]) if cnt else None
                if r is None:
                    for x in flat[0][i]:
                        r = x if r is None else G.binop(op, r, x)
                outs[0][i] = ini[0] if r is None else G.binop(op, ini[0], r)
                continue
            acc = [lift_arr(c) for c in ini]
            for k in range(cnt):
                acc = self._call(eqn, p["jaxpr"], [settle(a, v.aval.dtype) for a, v in zip(acc, eqn.outvars)] + [settle(lift_arr(f[i][k]), v.aval.dtype) for f, v in zip(flat, eqn.outvars)])
                acc = [lift_arr(a, v.aval.dtype) for a, v in zip(acc, eqn.outvars)]
            for o, a in zip(outs, acc):
                o[i] = a[()]
        return [settle(o, v.aval.dtype) for o, v in zip(outs, eqn.outvars)]

    def p_dot_general(self, eqn, p, a, b):
        od = np.dtype(eqn.outvars[0].aval.dtype)
        if od.kind not in "iub":
            return self.generic(eqn, (a, b))
        (lc, rc), (lb, rb) = p["dimension_numbers"]
        lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
        rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
        A = lift_arr(a, eqn.invars[0].aval.dtype).transpose(list(lb) + lf + list(lc))
        B = lift_arr(b, eqn.invars[1].aval.dtype).transpose(list(rb) + rf + list(rc))
        nb, nl, nr = len(lb), len(lf), len(rf)
        o = np.empty(A.shape[:nb + nl] + B.shape[nb:nb + nr], dtype=object)
        for i in np.ndindex(*o.shape):
            u = A[i[:nb + nl]].reshape(-1)
            v = B[i[:nb] + i[nb + nl:]].reshape(-1)
            t = [G.binop("mul", G.cvt(x, od), G.cvt(y, od)) if od.kind != "b" else G.binop("and", x, y) for x, y in zip(u, v)]
            r = G.reduce_many("add", t) if t and od.kind != "b" else None
            if r is None:
                for x in t:
                    r = x if r is None else G.binop("add" if od.kind != "b" else "or", r, x)
            o[i] = r if r is not None else G.const(0, od)
        return settle(o, od)

    def _window(self, eqn, p, a, op, pad):
        """a windowed reduction by a plain operation"""
        od = eqn.outvars[0].aval.dtype
        wd, ws, pads = p["window_dimensions"], p["window_strides"], p["padding"]
        bd, wdil = p.get("base_dilation") or (1,) * len(wd), p.get("window_dilation") or (1,) * len(wd)
        o = np.empty(eqn.outvars[0].aval.shape, dtype=object)
        x = lift_arr(a, eqn.invars[0].aval.dtype)
        for i in np.ndindex(*o.shape):
            t = []
            for k in np.ndindex(*wd):
                q = [i[d] * ws[d] - pads[d][0] + k[d] * wdil[d] for d in range(len(wd))]
                if all(v % bd[d] == 0 and 0 <= v // bd[d] < x.shape[d] for d, v in enumerate(q)):
                    t.append(x[tuple(v // bd[d] for d, v in enumerate(q))])
            r = pad
            for y in t:
                r = y if r is None else G.binop(op, r, y)
            o[i] = r if r is not None else G.const(0, od)
        return settle(o, od)

    def p_reduce_window(self, eqn, p, *ins):
        op = self._monoid(p["jaxpr"]) if len(ins) == 2 else None
        if op is None or int(np.prod(eqn.outvars[0].aval.shape)) * int(np.prod(p["window_dimensions"])) > 20000:
            return self.generic(eqn, ins)
        return [self._window(eqn, p, ins[0], op, lift_arr(ins[1], eqn.outvars[0].aval.dtype)[()])]

    def p_reduce_window_sum(self, eqn, p, a): return self._window(eqn, p, a, "add", None)
    def p_reduce_window_max(self, eqn, p, a): return self._window(eqn, p, a, "max", None)
    def p_reduce_window_min(self, eqn, p, a): return self._window(eqn, p, a, "min", None)

    def p_top_k(self, eqn, p, a):
        """the k largest along the last axis, equal ones by position: a stable descending sort"""
        k, n = p["k"], a.shape[-1]
        dt, it = eqn.outvars[0].aval.dtype, eqn.outvars[1].aval.dtype
        if np.dtype(dt).kind not in "iu" or p.get("axis", a.ndim - 1) not in (-1, a.ndim - 1):
            return self.generic(eqn, (a,))
        v, ix = np.empty(a.shape[:-1] + (k,), dtype=object), np.empty(a.shape[:-1] + (k,), dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            # bitwise complement reverses the order of integers
            row = lift_arr(a[i], dt)
            keys = [G.unop("not", x) for x in row]
            cols = [keys, list(row), [G.const(j, it) for j in range(n)]]
            if all(x.op == "const" for x in keys):
                perm = sorted(range(n), key=lambda j: G.cval(keys[j]))
                ex = [[c[j] for j in perm] for c in cols]
            else:
                ex = self._sort_decided(cols, 1, True) if G.ORDER[0] is not None else None
                if ex is None:
                    ex = self._sort_cases(cols, 1)
            if ex is None:
                return self.generic(eqn, (a,))
            v[i], ix[i] = ex[1][:k], ex[2][:k]
        return [settle(v, dt), settle(ix, it)]

    def _arg(self, eqn, p, a, which):
        od = np.dtype(p["index_dtype"])
        ax = p["axes"][0]
        if not isobj(a):
            return (np.argmax if which == "argmax" else np.argmin)(a, axis=ax).astype(od)
        t = np.moveaxis(a, ax, -1)
        o = np.empty(t.shape[:-1], dtype=object)
        for i in np.ndindex(*t.shape[:-1]):
            es = list(t[i])
            if es[0].dtype == G.BOOL:
                # first True / first False: exact
                r = G.const(0, od)
                for k in range(len(es) - 1, -1, -1):
                    c = es[k] if which == "argmax" else G.bnot(es[k])
                    r = G.ite(c, G.const(k, od), r)
                o[i] = r
            elif len(set(es)) == 1 and not G.is_float(es[0].dtype):
                o[i] = G.const(0, od)
            else:
                o[i] = self._arg_decided(es, which, od) or G.mk(which, tuple(es), od)
        return settle(o, od)

    @staticmethod
    def _arg_decided(es, which, od):
        """first largest / smallest when the partition decides every comparison it needs"""
        if G.ORDER[0] is None:
            return None
        best = 0
        for k in range(1, len(es)):
            a, b = (es[best], es[k]) if which == "argmax" else (es[k], es[best])
            r = False if a is b else G.ORDER[0]("lt", a, b)
            if r is None:
                return None
            best = k if r else best
        return G.const(best, od)

    def p_argmax(self, eqn, p, a): return self._arg(eqn, p, a, "argmax")
    def p_argmin(self, eqn, p, a): return self._arg(eqn, p, a, "argmin")

    def _cum(self, eqn, p, a, op):
        od = eqn.outvars[0].aval.dtype
        t = np.moveaxis(lift_arr(a), p["axis"], 0)
        o = np.empty(t.shape, dtype=object)
        n = t.shape[0]
        order = range(n - 1, -1, -1) if p.get("reverse") else range(n)
        for i in np.ndindex(*t.shape[1:]):
            r = None
            for k in order:
                r = t[(k,) + i] if r is None else G.binop(op, r, t[(k,) + i])
                o[(k,) + i] = r
        return settle(np.moveaxis(o, 0, p["axis"]), od)

    def p_cumsum(self, eqn, p, a): return self._cum(eqn, p, a, "add")
    def p_cumprod(self, eqn, p, a): return self._cum(eqn, p, a, "mul")
    def p_cummax(self, eqn, p, a): return self._cum(eqn, p, a, "max")
    def p_cummin(self, eqn, p, a): return self._cum(eqn, p, a, "min")

    # ------------------------------------------------------------ sort
    def p_sort(self, eqn, p, *ops):
        dim, nk, stable = p["dimension"], p["num_keys"], p["is_stable"]
        dts = [v.aval.dtype for v in eqn.outvars]
        mv = [np.moveaxis(o, dim, -1) for o in ops]
        outs = [np.empty(m.shape, dtype=object) for m in mv]
        shape = mv[0].shape
        uid = None if stable else G.fresh_id()
        for i in np.ndindex(*shape[:-1]):
            if all(not isobj(mv[k]) for k in range(nk)):
                n = shape[-1]
                # the order of ties is not specified for an unstable sort: take the one least like a stable sort
                perm = sorted(range(n) if stable else reversed(range(n)), key=lambda j: tuple(_sortkey(mv[k][i + (j,)]) for k in range(nk)))
                for k in range(len(ops)):
                    row = lift_arr(mv[k][i], dts[k])
                    for j in range(n):
                        outs[k][i + (j,)] = row[perm[j]]
                continue
            rows = [list(lift_arr(m[i], dts[k])) for k, m in enumerate(mv)]
            ex = self._sort_decided(rows, nk, stable) if G.ORDER[0] is not None else None
            if ex is None:
                ex = self._sort_cases(rows, nk)
            if ex is not None:
                for k in range(len(ops)):
                    for j in range(shape[-1]):
                        outs[k][i + (j,)] = ex[k][j]
                continue
            tok = G.mk("perm", (tuple(tuple(rows[k]) for k in range(nk)), uid), None)
            # a later sort key that is constant-distinct is a tie breaker: equals stability on that order
            for k in range(len(ops)):
                for j in range(shape[-1]):
                    outs[k][i + (j,)] = G.psel(tok, j, tuple(rows[k]))
            self.sorts.append(dict(eqn=eqn, perm=tok, rows=rows, stable=stable, num_keys=nk))
        return [settle(np.moveaxis(o, -1, dim), d) for o, d in zip(outs, dts)]

    def _sort_decided(self, rows, nk, stable=True):
        """sort when the partition decides every comparison it needs"""
        def less(i, j):
            for k in range(nk):
                l = G.binop("lt", rows[k][i], rows[k][j])
                if not G.is_const(l):
                    raise LookupError
                if bool(G.cval(l)):
                    return True
                g = G.binop("lt", rows[k][j], rows[k][i])
                if not G.is_const(g):
                    raise LookupError
                if bool(G.cval(g)):
                    return False
            return False
        order = []
        try:
            for j in range(len(rows[0])) if stable else reversed(range(len(rows[0]))):
                q = len(order)
                while q and less(j, order[q - 1]):
                    q -= 1
                order.insert(q, j)
        except LookupError:
            return None
        return [[r[j] for j in order] for r in rows]

    def _sort_cases(self, rows, nk):
        """sort whose keys are decision diagrams over constants: decided exactly, case by case (None if too many cases)"""
        ats = set()
        for r in rows[:nk]:
            for n in r:
                for m in _dd_nodes(n):
                    if m.op == "ite":
                        ats.add(m.args[0])
                    elif m.dtype == G.BOOL and m.op != "const":
                        ats.add(m)
                    elif m.op != "const":
                        return None
                if len(ats) > 7:
                    return None
        ats = sorted(ats, key=lambda n: n.id)

        def go(rs, k):
            if k < len(ats):
                a = ats[k]
                h = go([[_restr(n, a, True) for n in r] for r in rs], k + 1)
                l = go([[_restr(n, a, False) for n in r] for r in rs], k + 1)
                return [[G.ite(a, x, y) for x, y in zip(p, q)] for p, q in zip(h, l)]
            n = len(rs[0])
            perm = sorted(range(n), key=lambda j: tuple(_sortkey(rs[q][j]) for q in range(nk)))
            return [[r[j] for j in perm] for r in rs]
        return go(rows, 0)

    # ------------------------------------------------------------ gather / scatter
    def p_dynamic_slice(self, eqn, p, a, *starts):
        sizes = p["slice_sizes"]
        st = [self._scalar(s) for s in starts]
        st = [G.binop("min", G.binop("max", s, G.const(0, s.dtype)), G.const(d - z, s.dtype)) for s, d, z in zip(st, a.shape, sizes)]
        oshape = tuple(sizes)
        return self._gather_common(eqn, a, [(st, np.ndindex(*oshape))], oshape)

    def _scalar(self, s):
        if isobj(s):
            return s.reshape(-1)[0]
        s = np.asarray(s)
        return G.const(s.reshape(-1)[0], s.dtype)

    def _gather_common(self, eqn, a, blocks, oshape):
        od = eqn.outvars[0].aval.dtype
        o = np.empty(oshape, dtype=object)
        (st, it), = blocks
        al = a if isobj(a) else np.asarray(a, dtype=eqn.invars[0].aval.dtype)
        for i in it:
            o[i] = self.load(al, [G.binop("add", s, G.const(k, s.dtype)) for s, k in zip(st, i)], eqn)
        return settle(o, od)

    def load(self, al, idx, eqn):
        """element of array at symbolic index nodes (already in bounds)"""
        if not isobj(al):
            if all(G.is_const(n) for n in idx):
                ix = tuple(int(G.cval(n)) for n in idx)
                if all(0 <= q < s for q, s in zip(ix, al.shape)):
                    return G.const(al[ix], al.dtype)
            al = lift_arr(al)
        for d, n in enumerate(idx):
            if n.op == "ite":
                if all(G.is_const(x) or x.op in ("psel",) for x in G.leaves(n)) and G.dd_size(n) <= 200:
                    return self._load_dd(al, idx, d, n, eqn)
        if all(G.is_const(n) for n in idx):
            ix = tuple(int(G.cval(n)) for n in idx)
            if any(not 0 <= q < s for q, s in zip(ix, al.shape)):
                return G.mk("oob", (G.fresh_id(),), al.reshape(-1)[0].dtype)
            return al[ix]
        for d, n in enumerate(idx):
            if n.op == "psel" and all(G.is_const(c) for c in n.args[2]):
                perm, i, cs = n.args
                memo = {}
                vals = []
                for c in cs:
                    if c not in memo:
                        memo[c] = self.load(al, idx[:d] + [c] + idx[d + 1:], eqn)
                    vals.append(memo[c])
                return G.psel(perm, i, tuple(vals))
        # a known sub-array only depends on dims with symbolic index: restrict constant dims
        sub = al
        sidx = []
        ax = 0
        for n in idx:
            if G.is_const(n):
                q = int(G.cval(n))
                if not 0 <= q < sub.shape[ax]:
                    return G.mk("oob", (G.fresh_id(),), al.reshape(-1)[0].dtype)
                sub = np.take(sub, q, axis=ax)
            elif sub.shape[ax] == 1:
                sub = np.take(sub, 0, axis=ax)
            else:
                r = G.rng(n)
                sidx.append(n)
                ax += 1
        if not sidx:
            return sub.reshape(-1)[0]
        f = sub.reshape(-1)
        if all(x is f[0] for x in f):
            return f[0]
        arr = G.arr_node(list(f), sub.shape)
        r = G.mk("gather", (arr, tuple(sidx)), f[0].dtype)
        return r

    def _load_dd(self, al, idx, d, n, eqn):
        memo = {}

        def go(m):
            if m.id in memo:
                return memo[m.id]
            if m.op == "ite":
                r = G.ite(m.args[0], go(m.args[1]), go(m.args[2]))
            else:
                r = self.load(al, idx[:d] + [m] + idx[d + 1:], eqn)
            memo[m.id] = r
            return r
        return go(n)

    def p_gather(self, eqn, p, a, idx):
        dn = p["dimension_numbers"]
        mode = str(p["mode"]).split(".")[-1]
        sizes = p["slice_sizes"]
        out = eqn.outvars[0].aval
        od = out.dtype
        idt = np.dtype(eqn.invars[1].aval.dtype)
        offset = tuple(dn.offset_dims)
        batch_out = [i for i in range(len(out.shape)) if i not in offset]
        coll, obd, sbd = tuple(dn.collapsed_slice_dims), tuple(dn.operand_batching_dims), tuple(dn.start_indices_batching_dims)
        window_dims = [d for d in range(len(a.shape)) if d not in coll and d not in obd]
        al = a if isobj(a) else np.asarray(a).astype(eqn.invars[0].aval.dtype, copy=False)
        il = lift_arr(idx, idt)
        o = np.empty(out.shape, dtype=object)
        fill = p.get("fill_value")
        K = il.shape[-1]
        # offset dims appear in order
        for b in np.ndindex(*[out.shape[i] for i in batch_out]):
            start = [None] * len(a.shape)
            for k in range(K):
                start[dn.start_index_map[k]] = il[b + (k,)]
            for od_, sd in zip(obd, sbd):
                start[od_] = G.const(b[sd], idt)
            start = [s if s is not None else G.const(0, idt) for s in start]
            inb = G.true()
            st2 = []
            for d, s in enumerate(start):
                hi = a.shape[d] - sizes[d]
                w = s.dtype
                ok = G.true()
                if w.kind == "i":
                    ok = G.band(ok, G.bnot(G.binop("lt", s, G.const(0, w))))
                if hi < np.iinfo(w).max:
                    ok = G.band(ok, G.bnot(G.binop("lt", G.const(hi, w), s)))
                inb = G.band(inb, ok)
                if mode in ("CLIP", "PROMISE_IN_BOUNDS") or True:
                    c = G.binop("max", s, G.const(0, w)) if w.kind == "i" else s
                    c = G.binop("min", c, G.const(min(hi, np.iinfo(w).max), w)) if hi >= 0 else c
                    st2.append(c)
            if self.record:
                self.gathers.append(dict(eqn=eqn, start=start, inb=inb, mode=mode, arr=a))
            for w in np.ndindex(*[out.shape[i] for i in offset]):
                pos = [0] * len(out.shape)
                for q, i in enumerate(batch_out):
                    pos[i] = b[q]
                off = [0] * len(a.shape)
                for q, i in enumerate(offset):
                    pos[i] = w[q]
                    off[window_dims[q]] = w[q]
                ids = [G.binop("add", s, G.const(k, s.dtype)) if k else s for s, k in zip(st2, off)]
                v = self.load(al, ids, eqn)
                if mode == "FILL_OR_DROP":
                    fv = fill
                    if fv is None:
                        fv = _default_fill(od)
                    v = G.ite(inb, v, G.const(fv, od))
                o[tuple(pos)] = v
        return settle(o, od)

    def _scatter(self, eqn, p, a, idx, upd, comb):
        dn = p["dimension_numbers"]
        mode = str(p["mode"]).split(".")[-1]
        od = eqn.outvars[0].aval.dtype
        idt = np.dtype(eqn.invars[1].aval.dtype)
        uw = tuple(dn.update_window_dims)
        ins, obd, sbd = tuple(dn.inserted_window_dims), tuple(dn.operand_batching_dims), tuple(dn.scatter_indices_batching_dims)
        window_dims = [d for d in range(a.ndim) if d not in ins and d not in obd]
        ul = lift_arr(upd, od)
        al = lift_arr(a, od)
        il = lift_arr(idx, idt)
        bdims = [i for i in range(ul.ndim) if i not in uw]
        wshape = [1] * a.ndim
        for q, i in enumerate(uw):
            wshape[window_dims[q]] = ul.shape[i]
        writes = []      # (guard, [index nodes], value)
        for b in np.ndindex(*[ul.shape[i] for i in bdims]):
            start = [None] * a.ndim
            for k in range(il.shape[-1]):
                start[dn.scatter_dims_to_operand_dims[k]] = il[b + (k,)]
            for o_, sd in zip(obd, sbd):
                start[o_] = G.const(b[sd], idt)
            start = [s if s is not None else G.const(0, idt) for s in start]
            inb = G.true()
            st2 = []
            for d, s in enumerate(start):
                hi = a.shape[d] - wshape[d]
                if mode == "CLIP":
                    if s.dtype.kind == "i":
                        s = G.binop("max", s, G.const(0, s.dtype))
                    if hi < np.iinfo(s.dtype).max:
                        s = G.binop("min", s, G.const(hi, s.dtype))
                else:
                    if s.dtype.kind == "i":
                        inb = G.band(inb, G.bnot(G.binop("lt", s, G.const(0, s.dtype))))
                    if hi < 0:
                        inb = G.false()
                    elif hi < np.iinfo(s.dtype).max:
                        inb = G.band(inb, G.bnot(G.binop("lt", G.const(hi, s.dtype), s)))
                st2.append(s)
            for w in np.ndindex(*[ul.shape[i] for i in uw]):
                pos = [0] * ul.ndim
                for q, i in enumerate(bdims):
                    pos[i] = b[q]
                off = [0] * a.ndim
                for q, i in enumerate(uw):
                    pos[i] = w[q]
                    off[window_dims[q]] = w[q]
                ids = tuple(G.binop("add", s, G.const(k, s.dtype)) if k else s for s, k in zip(st2, off))
                writes.append((inb, ids, ul[tuple(pos)]))
        rec = dict(eqn=eqn, name=eqn.primitive.name, operand=a, writes=writes, comb=comb, mode=mode, unique=p.get("unique_indices"), nbatch=int(np.prod([ul.shape[i] for i in bdims])) if bdims else 1, path=list(self.path))
        if self.record:
            self.scatters.append(rec)
        out = self.store(al, writes, comb, eqn)
        rec["result"] = out
        return settle(out, od)

    def store(self, al, writes, comb, eqn):
        out = np.array(al, dtype=object, copy=True)
        f = out.reshape(-1)
        shape = al.shape
        ok = True
        for g, ids, v in writes:
            n = 1
            for i in ids:
                if not all(G.is_const(x) for x in G.leaves(i)) or G.dd_size(i) > 128:
                    ok = False
        if ok:
            for g, ids, v in writes:
                if g is G.false():
                    continue
                for pos, gg in self._cases(ids, shape):
                    gg = G.band(g, gg)
                    if gg is G.false():
                        continue
                    old = out[pos]
                    new = v if comb is None else G.binop(comb, old, v)
                    out[pos] = G.ite(gg, new, old)
            return out
        arr = G.arr_node(list(f), shape)
        s = G.mk("scatter", (arr, tuple((g, ids, v) for g, ids, v in writes), comb), f[0].dtype if f.size else None)
        for k in range(f.size):
            f[k] = G.mk("elt", (s, k), f[k].dtype)
        return out

    def _cases(self, ids, shape):
        """possible constant positions with their guards"""
        res = [((), G.true())]
        for d, n in enumerate(ids):
            lv = {}
            def go(m, g):
                if m.op == "ite":
                    go(m.args[1], G.band(g, m.args[0]))
                    go(m.args[2], G.band(g, G.bnot(m.args[0])))
                else:
                    k = int(G.cval(m))
                    lv[k] = G.bor(lv.get(k, G.false()), g)
            go(n, G.true())
            new = []
            for pos, g in res:
                for k, gk in lv.items():
                    if 0 <= k < shape[d]:
                        h = G.band(g, gk)
                        if h is not G.false():
                            new.append((pos + (k,), h))
            res = new
        return res

    def p_scatter(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, None)
    def p_scatter_add(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, "add")
    def p_scatter_sub(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, "sub")
    def p_scatter_mul(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, "mul")
    def p_scatter_min(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, "min")
    def p_scatter_max(self, eqn, p, a, idx, upd): return self._scatter(eqn, p, a, idx, upd, "max")

    def p_dynamic_update_slice(self, eqn, p, a, u, *starts):
        od = eqn.outvars[0].aval.dtype
        st = [self._scalar(s) for s in starts]
        st = [G.binop("min", G.binop("max", s, G.const(0, s.dtype)), G.const(d - z, s.dtype)) for s, d, z in zip(st, a.shape, u.shape)]
        ul, al = lift_arr(u, od), lift_arr(a, od)
        writes = []
        for i in np.ndindex(*u.shape):
            writes.append((G.true(), tuple(G.binop("add", s, G.const(k, s.dtype)) if k else s for s, k in zip(st, i)), ul[i]))
        rec = dict(eqn=eqn, name="dynamic_update_slice", operand=a, writes=writes, comb=None, mode="CLIP", unique=True, nbatch=1, path=list(self.path))
        if self.record:
            self.scatters.append(rec)
        out = self.store(al, writes, None, eqn)
        rec["result"] = out
        return settle(out, od)

    # ------------------------------------------------------------ calls
    def _call(self, eqn, closed, ins):
        self.path.append(eqn)
        try:
            return self.jaxpr(closed.jaxpr, closed.consts, ins)
        finally:
            self.path.pop()

    def p_jit(self, eqn, p, *ins):
        if p.get("name") in self.opaque_calls:
            return self.generic(eqn, list(ins))
        return self._call(eqn, p["jaxpr"], ins)
    p_pjit = p_jit

    def p_closed_call(self, eqn, p, *ins): return self._call(eqn, p["call_jaxpr"], ins)
    def p_core_closed_call(self, eqn, p, *ins): return self._call(eqn, p["call_jaxpr"], ins)
    def p_custom_jvp_call(self, eqn, p, *ins): return self._call(eqn, p["call_jaxpr"], ins)
    def p_custom_vjp_call(self, eqn, p, *ins): return self._call(eqn, p.get("call_jaxpr") or p.get("fun_jaxpr"), ins)

    # ------------------------------------------------------------ kernels
    def p_pallas_call(self, eqn, p, *ins):
        gm = p["grid_mapping"]
        if gm.num_dynamic_grid_bounds or gm.num_index_operands or gm.num_scratch_operands or p.get("mesh") is not None:
            raise Unsupported("pallas_call with scratch, prefetched or dynamic operands")
        outs = p["out_avals"]
        alias = {o: i for i, o in p["input_output_aliases"]}
        full = [np.array(lift_arr(a, v.aval.dtype), dtype=object, copy=True) for a, v in zip(ins, eqn.invars)]
        refs = [Ref(f"in{k}", a, v.aval.dtype) for k, (a, v) in enumerate(zip(full, eqn.invars))]
        ores = []
        for k, av in enumerate(outs):
            if k in alias:
                r = Ref(f"out{k}", full[alias[k]].copy(), av.dtype)
            else:
                a = np.empty(av.shape, dtype=object)
                for i in np.ndindex(*av.shape):
                    a[i] = G.mk("undef", (G.fresh_id(),), np.dtype(av.dtype))
                r = Ref(f"out{k}", a, av.dtype)
            ores.append(r)
        for k, i in alias.items():          # one buffer
            refs[i] = ores[k]
        allr = refs + ores
        for r in allr:
            r.first = r.arr.copy()
        jx = p["jaxpr"]
        assert len(jx.invars) == len(allr)
        for bm, r in zip(gm.block_mappings, allr):
            bs = tuple(int(getattr(b, "block_size", b)) if not b.__class__.__name__ == "Squeezed" else -1 for b in bm.block_shape)
            if bs != tuple(r.arr.shape):
                raise Unsupported("pallas_call with blocked operands")
        grid = [int(g) for g in gm.grid]
        pids = list(np.ndindex(*grid))
        if len(pids) > self.max_programs:
            raise Unsupported(f"{len(pids)} kernel programs")
        order = self.program_order
        if order == "reverse":
            pids.reverse()
        elif callable(order):
            pids = order(pids)
        self.kernels.append((eqn, len(pids)))
        for pid in pids:
            self.pids.append((pid, grid))
            self.path.append(eqn)
            try:
                self.jaxpr(jx, [], allr)
            finally:
                self.path.pop()
                self.pids.pop()
        return [settle(r.arr.copy(), r.dtype) for r in ores]

    def p_program_id(self, eqn, p):
        return np.asarray(self.pids[-1][0][p["axis"]], np.int32)

    def p_num_programs(self, eqn, p):
        return np.asarray(self.pids[-1][1][p["axis"]], np.int32)

    def p_multiple_of(self, eqn, p, x, *r): return x
    def p_max_contiguous(self, eqn, p, x, *r): return x

    def p_debug_barrier_p(self, eqn, p, *a): return []

    def p_broadcast_to(self, eqn, p, a):
        return np.broadcast_to(np.asarray(a), p["shape"])

    def _cells(self, ref, transforms):
        """positions (tuples of index nodes) an indexer denotes, as an object array of its result's shape"""
        if len(transforms) == 0:
            transforms = [None]
        if len(transforms) != 1:
            raise Unsupported("nested reference transforms")
        t = transforms[0]
        shape = ref.arr.shape
        if t is None:
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                o[i] = tuple(G.const(k, np.int32) for k in i)
            return o
        ints, parts = [], []
        for ix in t.indices:
            if hasattr(ix, "stride"):
                st = ix.start
                st = G.const(st, np.int32) if isinstance(st, (int, np.integer)) else self._scalar(st)
                if not isinstance(ix.size, (int, np.integer)):
                    raise Unsupported("slice of dynamic size")
                parts.append(("s", [G.binop("add", st, G.const(k * ix.stride, st.dtype)) for k in range(int(ix.size))]))
            else:
                a = lift_arr(ix, None if isobj(ix) else (np.int32 if isinstance(ix, (int, np.integer)) else np.asarray(ix).dtype))
                parts.append(("i", a))
                ints.append(a)
        ish = np.broadcast_shapes(*[a.shape for a in ints]) if ints else ()
        isint = [k == "i" for k, _ in parts]
        pos = [k for k, b in enumerate(isint) if b]
        ssh = [len(v) for k, v in parts if k == "s"]
        at = 0
        if pos and all(b - a == 1 for a, b in zip(pos, pos[1:])):
            at = pos[0]
        oshape = tuple(ssh[:at]) + tuple(ish) + tuple(ssh[at:])
        o = np.empty(oshape, dtype=object)
        for i in np.ndindex(*oshape):
            ii, si = i[at:at + len(ish)], list(i[:at] + i[at + len(ish):])
            w = []
            for k, v in parts:
                if k == "s":
                    w.append(v[si.pop(0)])
                else:
                    w.append(np.broadcast_to(v, ish)[ii] if ish else v.reshape(-1)[0])
            o[i] = tuple(w)
        return o

    def _refget(self, ref, cells, guard=None):
        o = np.empty(cells.shape, dtype=object)
        src = ref.first if self.stale else ref.arr
        for i in np.ndindex(*cells.shape):
            if guard is None or guard[i] is not G.false():
                if src.size == 0:
                    o[i] = G.mk("oob", (G.fresh_id(),), np.dtype(ref.dtype))
                else:
                    o[i] = self.load(src, list(cells[i]), None) if cells[i] else src[()]
                if o[i].op == "oob":
                    self.oob.append((self.path[-1] if self.path else None, loc(G.CUR[0]), "read"))
            else:
                o[i] = G.mk("undef", (G.fresh_id(),), np.dtype(ref.dtype))
        return o

    def _refset(self, ref, cells, val, guard=None):
        val = np.broadcast_to(lift_arr(val, ref.dtype), cells.shape)
        for i in np.ndindex(*cells.shape):
            g = G.true() if guard is None else guard[i]
            if g is G.false():
                continue
            c = cells[i]
            if all(G.is_const(n) for n in c):
                ix = tuple(int(G.cval(n)) for n in c)
                if any(not 0 <= k < s for k, s in zip(ix, ref.arr.shape)):
                    self.oob.append((self.path[-1] if self.path else None, loc(G.CUR[0]), "write"))
                    continue
                ref.arr[ix] = G.ite(g, val[i], ref.arr[ix])
            else:
                ref.arr = self.store(ref.arr, [(g, c, val[i])], None, None)

    def p_get(self, eqn, p, ref, *leaves):
        tr = jax.tree_util.tree_unflatten(p["tree"], leaves)
        return settle(self._refget(ref, self._cells(ref, tr)), ref.dtype)

    def p_swap(self, eqn, p, ref, val, *leaves):
        tr = jax.tree_util.tree_unflatten(p["tree"], leaves)
        c = self._cells(ref, tr)
        used = eqn.outvars[0].__class__.__name__ != "DropVar"
        old = self._refget(ref, c) if used else np.broadcast_to(lift_arr(val, ref.dtype), c.shape)
        self._refset(ref, c, val)
        return settle(old, ref.dtype)

    def p_addupdate(self, eqn, p, ref, val, *leaves):
        tr = jax.tree_util.tree_unflatten(p["tree"], leaves)
        c = self._cells(ref, tr)
        old = self._refget(ref, c)
        self._refset(ref, c, map2(lambda x, y: G.binop("add", x, y), old, lift_arr(val, ref.dtype), ref.dtype))
        return []

    def p_masked_load(self, eqn, p, *flat):
        ref, tr, mask, other = p["args_tree"].unflatten(flat)
        c = self._cells(ref, tr)
        g = None if mask is None else np.broadcast_to(lift_arr(mask), c.shape)
        o = self._refget(ref, c, g)
        if g is not None and other is not None:
            ot = np.broadcast_to(lift_arr(other, ref.dtype), c.shape)
            for i in np.ndindex(*c.shape):
                o[i] = G.ite(g[i], o[i], ot[i])
        return settle(o, ref.dtype)

    def p_masked_swap(self, eqn, p, *flat):
        ref, tr, val, mask = p["args_tree"].unflatten(flat)
        c = self._cells(ref, tr)
        g = None if mask is None else np.broadcast_to(lift_arr(mask), c.shape)
        used = eqn.outvars[0].__class__.__name__ != "DropVar"
        old = self._refget(ref, c, g) if used else np.broadcast_to(lift_arr(val, ref.dtype), c.shape)
        self._refset(ref, c, val, g)
        return settle(old, ref.dtype)

    def p_atomic_rmw(self, eqn, p, *flat):
        ref, tr, val, mask = p["args_tree"].unflatten(flat)
        c = self._cells(ref, tr)
        g = None if mask is None else np.broadcast_to(lift_arr(mask), c.shape)
        st, self.stale = self.stale, False          # an atomic operation sees the current value
        try:
            old = self._refget(ref, c, g)
        finally:
            self.stale = st
        op = p["atomic_type"].value
        v = np.broadcast_to(lift_arr(val, ref.dtype), c.shape)
        new = v if op == "xchg" else map2(lambda x, y: G.binop(op, x, y), old, v, ref.dtype)
        self._refset(ref, c, new, g)
        return settle(old, ref.dtype)

    @staticmethod
    def _refs(xs):
        seen, out = set(), []
        for x in xs:
            if isinstance(x, Ref) and id(x) not in seen:
                seen.add(id(x))
                out.append(x)
        return out

    def p_remat(self, eqn, p, *ins):
        j = p["jaxpr"]
        return self.jaxpr(j, [], ins)
    p_checkpoint = p_remat

    def p_cond(self, eqn, p, pred, *ins):
        br = p["branches"]
        c = self._scalar(pred)
        if G.is_const(c):
            k = max(0, min(int(G.cval(c)), len(br) - 1))
            return self._call(eqn, br[k], ins)
        refs = self._refs(ins)
        before = [r.arr for r in refs]
        outs, after = [], []
        for b in br:
            for r, a in zip(refs, before):
                r.arr = a.copy()
            outs.append(self._call(eqn, b, ins))
            after.append([r.arr for r in refs])
        for j, r in enumerate(refs):
            acc = after[-1][j]
            for k in range(len(br) - 2, -1, -1):
                g = (G.bnot(c) if k == 0 else c) if c.dtype == G.BOOL else G.binop("le" if k == 0 else "eq", c, G.const(k, c.dtype))
                acc = lift_arr(map2(lambda x, y: G.ite(g, x, y), after[k][j], acc, r.dtype), r.dtype)
            r.arr = np.array(acc, dtype=object, copy=True)
        res = []
        for j, v in enumerate(eqn.outvars):
            od = v.aval.dtype
            r = lift_arr(outs[-1][j], od)
            for k in range(len(br) - 2, -1, -1):
                if c.dtype == G.BOOL:
                    g = G.bnot(c) if k == 0 else c
                else:
                    # branch index is clamped
                    g = G.binop("le" if k == 0 else "eq", c, G.const(k, c.dtype))
                r = map2(lambda x, y: G.ite(g, x, y), lift_arr(outs[k][j], od), lift_arr(r, od), od)
                r = lift_arr(r, od)
            res.append(settle(r, od))
        return res

    def p_while(self, eqn, p, *ins):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, carry = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]

        def cond(c):
            return self._scalar(self._call(eqn, cj, cc + c)[0])

        def body(c):
            return self._call(eqn, bj, bc + c)
        if np.prod(cj.out_avals[0].shape, dtype=int) != 1:
            return self._lanes(eqn, cc, bc, carry)
        n = 0
        while n < (self.guarded or self.unroll):
            g = cond(carry)
            if not G.is_const(g):
                break
            if not bool(G.cval(g)):
                self.iters.append((eqn, n))
                return carry
            carry = body(carry)
            n += 1
        if self.guarded:
            while n < self.guarded:
                g = cond(carry)
                if g is G.false():
                    self.iters.append((eqn, n))
                    return carry
                refs = self._refs(bc)
                before = [r.arr.copy() for r in refs]
                new = body(carry)
                for r, a in zip(refs, before):
                    r.arr = np.array(lift_arr(map2(lambda x, y: G.ite(g, x, y), r.arr, a, r.dtype), r.dtype), dtype=object, copy=True)
                carry = [settle(map2(lambda x, y: G.ite(g, x, y), lift_arr(a, v.aval.dtype), lift_arr(b, v.aval.dtype), v.aval.dtype), v.aval.dtype)
                         for a, b, v in zip(new, carry, eqn.outvars)]
                n += 1
            raise Endless(eqn, n)
        return self._summarise(eqn, carry, cond, body, "while")

    def _lanes(self, eqn, cc, bc, carry):
        """a loop with one predicate per lane (leading dimensions of every carried value): a lane whose predicate is false keeps its values, and the
        loop ends when all are"""
        p, n = eqn.params, 0
        avals = [v.aval for v in eqn.outvars]

        def keep(g, new, old, av):
            new, old = lift_arr(new, av.dtype), lift_arr(old, av.dtype)
            out = np.empty(av.shape, dtype=object)
            for i in np.ndindex(*av.shape):
                out[i] = G.ite(g[i[:g.ndim]], new[i], old[i])
            return settle(out, av.dtype)
        while n < (self.guarded or self.unroll):
            g = lift_arr(np.asarray(self._call(eqn, p["cond_jaxpr"], cc + carry)[0]), np.dtype(bool))
            live = [x for x in g.flat if x is not G.false()]
            if not live:
                self.iters.append((eqn, n))
                return carry
            if not self.guarded and any(not G.is_const(x) for x in live):
                raise Unsupported("mapped loop with an undecided condition")
            if self._refs(bc):
                raise Unsupported("mapped loop over references")
            carry = [keep(g, a, b, v) for a, b, v in zip(self._call(eqn, p["body_jaxpr"], bc + carry), carry, avals)]
            n += 1
        if self.guarded:
            raise Endless(eqn, n)
        raise Unsupported("mapped loop that does not end")

    def _summarise(self, eqn, init, cond, body, kind):
        if self.pids:
            raise Undecided("kernel loop with undecided condition")
        lid = G.fresh_id()
        avals = [v.aval for v in eqn.outvars][:len(init)]
        # which carried positions are provably invariant?  start optimistic, iterate to a fixpoint
        inv = [True] * len(init)
        rec, self.record = self.record, False
        for _ in range(len(init) + 1):
            nl, ns, ng, nso = len(self.loops), len(self.scatters), len(self.gathers), len(self.sorts)
            cur = [init[k] if inv[k] else self._phi(lid, k, avals[k]) for k in range(len(init))]
            out = body(list(cur))
            del self.loops[nl:], self.scatters[ns:], self.gathers[ng:], self.sorts[nso:]
            changed = False
            for k in range(len(init)):
                if inv[k] and not same(cur[k], out[k]):
                    inv[k] = False
                    changed = True
            if not changed:
                break
        self.record = rec
        phis = [init[k] if inv[k] else self._phi(lid, k, avals[k]) for k in range(len(init))]
        c = cond(list(phis))
        self.path.append(("loop", lid))
        out = body(list(phis))
        self.path.pop()
        L = Loop(lid, eqn, init, phis, c, out, kind)
        L.invariant = inv
        self.loops.append(L)
        res = []
        for k in range(len(init)):
            if inv[k]:
                res.append(init[k])
            else:
                res.append(self._tok("loopout", lid, k, avals[k]))
        L.outs = res
        return res

    def _phi(self, lid, k, aval):
        return self._tok("phi", lid, k, aval)

    def _tok(self, op, lid, k, aval):
        o = np.empty(aval.shape, dtype=object)
        for i in np.ndindex(*aval.shape):
            o[i] = G.mk(op, (lid, k, i), aval.dtype)
        return o

    def p_scan(self, eqn, p, *ins):
        nc, ncar, L = p["num_consts"], p["num_carry"], p["length"]
        consts, carry, xs = list(ins[:nc]), list(ins[nc:nc + ncar]), list(ins[nc + ncar:])
        j = p["jaxpr"]
        if L > self.unroll and L * len(j.eqns if hasattr(j, "eqns") else j.jaxpr.eqns) > 400000:
            raise Unsupported(f"scan of length {L}")
        ys = []
        order = range(L - 1, -1, -1) if p["reverse"] else range(L)
        for t in order:
            out = self._call(eqn, j, consts + carry + [x[t:t + 1].reshape(x.shape[1:]) for x in xs])
            carry = out[:ncar]
            ys.append(out[ncar:])
        if p["reverse"]:
            ys.reverse()
        res = list(carry)
        for k in range(len(eqn.outvars) - ncar):
            dt = eqn.outvars[ncar + k].aval.dtype
            cols = [y[k] for y in ys]
            if not cols:
                res.append(np.zeros(eqn.outvars[ncar + k].aval.shape, dt))
            elif any(isobj(c) for c in cols):
                res.append(np.stack([lift_arr(c, dt) for c in cols]))
            else:
                res.append(np.stack(cols))
        return res

    # ------------------------------------------------------------ uninterpreted
    def generic(self, eqn, ins):
        """uninterpreted primitive: elementwise when all shapes agree, else one opaque token depending on everything"""
        name = eqn.primitive.name
        self.opaque.append(name)
        outs = [v.aval for v in eqn.outvars]
        pk = str(sorted((k, str(v)) for k, v in eqn.params.items()))
        nodes = []
        for x, v in zip(ins, eqn.invars):
            if isinstance(x, Ref):
                raise Unsupported(name)
            dt = v.aval.dtype
            try:
                x = lift_arr(x, dt if isinstance(dt, np.dtype) else None)
            except Exception:
                raise Unsupported(name)
            nodes.append(G.mk("arr", (tuple(x.reshape(-1)), tuple(x.shape)), None))
        tok = G.mk("prim", (name, pk, tuple(nodes)), None)
        res = []
        for k, av in enumerate(outs):
            o = np.empty(av.shape, dtype=object)
            try:
                dt = np.dtype(av.dtype)
            except TypeError:
                dt = np.dtype("uint32")
            for i in np.ndindex(*av.shape):
                o[i] = G.mk("out", (tok, k, i), dt)
            res.append(o)
        return res if eqn.primitive.multiple_results else res[0]


class Ref:
    """mutable reference (kernel memory)"""
    def __init__(self, name, arr, dtype):
        self.name, self.arr, self.dtype = name, arr, dtype
        self.log = []


def _default_fill(dt):
    dt = np.dtype(dt)
    if dt == bool:
        return True
    if G.is_float(dt):
        return np.nan
    if dt.kind == "u":
        return np.iinfo(dt).max
    if dt.kind == "i":
        return np.iinfo(dt).min
    return 0


def _dd_nodes(n):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "ite":
            st += [x.args[1], x.args[2]]


def _restr(n, atom, val):
    return G.restrict(n, {atom: val})


def _sortkey(v):
    if isinstance(v, Node):
        v = G.cval(v)
    f = float(v)
    return (1, 0.0) if f != f else (0, v.item() if hasattr(v, "item") else v)


def same(a, b):
    if isobj(a) != isobj(b):
        return False
    if isobj(a):
        return a.shape == b.shape and all(x is y for x, y in zip(a.reshape(-1), b.reshape(-1)))
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def src_array(name, shape, dtype, rng=None):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = G.src(name, i, dtype, rng)
    return o
