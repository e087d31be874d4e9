"""C31 array-like functions: on arrays every call builds the same program as the array library's namesake; on structures no argument is dropped; namespaces agree."""
import inspect, itertools
import numpy as np
from ..trace import *
from ..common import *
from .. import kinds
import xtructure
import xtructure.core.xtructure_numpy as core
import xtructure.xtructure_numpy as pub
import xtructure.numpy as alias
from xtructure.core.type_utils import is_xtructure_dataclass_instance as isst

SAME = "on arrays the function builds the same program as its array-library namesake"
REJ = "on arrays the function and its namesake reject the same calls"
USED = "on structures an argument is used or rejected, never ignored"
BOGUS = "on structures an argument value the array library refuses is refused"
NS = "both public namespaces export the same functions"
SURE = "every exported array-like function is analysed"

NAMESAKE = dict(flatten="ravel")
OWN = {"where_no_broadcast", "unique_mask", "update_on_condition"}     # no namesake: C20, C22, C23


class Arr:
    def __init__(self, shape, dt="float32"):
        self.shape, self.dt = tuple(shape), dt

    def __repr__(self):
        return f"{self.dt}{list(self.shape)}"


class St:
    def __init__(self, K, batch):
        self.K, self.batch = K, batch

    def __repr__(self):
        return f"{self.K.__name__}{list(self.batch)}"


class Bogus:
    """a value no argument admits"""
    def __repr__(self):
        return "<bogus>"


f, i, u, b8 = (lambda *s: Arr(s)), (lambda *s: Arr(s, "int32")), (lambda *s: Arr(s, "uint8")), (lambda *s: Arr(s, "bool"))
S = lambda *b: St(kinds.Scal, b)
cpu = jax.devices("cpu")[0]
DT = [jnp.int32, jnp.float16, np.dtype("uint8"), jnp.bfloat16]
AX = [0, 1, -1, -2]
SHARD = [jax.sharding.SingleDeviceSharding(cpu)]

# name -> (positional array arguments: several cases, optional arguments with the values tried, structure cases)
TABLE = dict(
    concat=([([f(2, 3), f(2, 3)],), ([f(2, 3)],), ([f(2, 3), i(2, 3), u(2, 3)],), ((f(2, 3), f(2, 3)),), ([],), ([f(2, 3), f(3, 2)],)], dict(axis=AX + [None, 5]), [([S(2, 3), S(2, 3)],)]),
    concatenate=([([f(2, 3), f(2, 3)],), ([f(2, 3)],), ([f(2, 3), i(2, 3), u(2, 3)],), (f(2, 3),), ([],)], dict(axis=AX + [None, 5], dtype=DT), [([S(2, 3), S(2, 3)],)]),
    stack=([([f(2, 3), f(2, 3)],), ([f(2, 3), i(2, 3)],), ([f(2, 3), f(3, 2)],), ([],)], dict(axis=AX + [2, 5], dtype=DT, out=[1]), [([S(2, 3), S(2, 3)],)]),
    vstack=([([f(2, 3), f(1, 3)],), ([f(3), i(3)],), ([f(), f()],), ([],)], dict(dtype=DT), [([S(2, 3), S(2, 3)],)]),
    hstack=([([f(2, 3), f(2, 1)],), ([f(3), i(2)],), ([f(), f()],), ([],)], dict(dtype=DT), [([S(2, 3), S(2, 3)],)]),
    dstack=([([f(2, 3), f(2, 3)],), ([f(3), i(3)],), ([f(), f()],), ([],)], dict(dtype=DT), [([S(2, 3), S(2, 3)],)]),
    column_stack=([([f(3), f(3)],), ([f(3, 2), i(3)],), ([f(), f()],), ([],)], dict(), [([S(3), S(3)],)]),
    block=([([f(2, 3), f(2, 2)],), ([[f(2, 3), f(2, 2)], [f(1, 3), i(1, 2)]],), (f(2, 3),), ([[f(3), f(2)]],), ([f(), f()],), ([],)], dict(), [([S(2, 3), S(2, 3)],)]),
    pad=([(f(2, 3), 1), (f(2, 3), (1, 2)), (f(2, 3), ((1, 2), (0, 3))), (i(4), (2, 0)), (f(2, 3), ((1, 2),)), (f(2, 3), -1), (b8(3), 1), (f(2, 3), (1, 2, 3)), (f(2), 0)],
         dict(mode=["constant", "edge", "reflect", "wrap", "empty", "linear_ramp", "maximum"], constant_values=[5, (1, 2)], reflect_type=["odd"], end_values=[3], stat_length=[1]),
         [(S(3), (1, 2)), (S(2, 3), ((1, 2), (0, 1))), (S(3), 2), (S(), (1, 2))]),
    reshape=([(f(2, 3), (3, 2)), (f(2, 3), 6), (f(2, 3), -1), (f(2, 3), (-1, 2)), (f(2, 3), (4,)), (i(4), (2, 2)), (f(2, 3), [6]), (f(), (1,))], dict(order=["C", "F", "A"], copy=[True, False], out_sharding=SHARD), [(S(2, 3), (3, 2)), (S(2, 3), 6)]),
    ravel=([(f(2, 3),), (i(4),), (f(),)], dict(order=["C", "F", "A", "K"], out_sharding=SHARD), [(S(2, 3),)]),
    flatten=([(f(2, 3),), (i(4),), (f(),)], dict(order=["C", "F", "A", "K"]), [(S(2, 3),)]),
    where=([(b8(2, 3), f(2, 3), f(2, 3)), (b8(3), i(2, 3), f(3)), (b8(2, 3), 1, 0), (b8(2, 3), f(2, 3), 0.5), (i(2, 3), f(2, 3), f()), (b8(4),), (b8(4), f(4)), (b8(4), None, f(4)), (b8(2, 2), f(3), f(3)), (f(2, 3), i(3), u(3))],
           dict(size=[2, 7], fill_value=[9]), [(b8(3), S(3), S(3)), (b8(2, 3), S(2, 3), 0), (b8(3), S(3), None), (b8(3), None, S(3)), (b8(3), 1, S(3))]),
    take=([(f(5), i(2)), (f(4, 3), i(2)), (f(4, 3), i(2, 2)), (f(4, 3), 1), (i(4), f(2)), (f(4, 3), u(3))],
          dict(axis=[0, 1, -1, None, 4], mode=["clip", "wrap", "fill", "promise_in_bounds", "nonsense"], unique_indices=[True], indices_are_sorted=[True], fill_value=[7], out=[1]), [(S(4), i(2)), (S(4, 3), i(2))]),
    take_along_axis=([(f(4, 3), i(2, 3)), (f(4, 3), i(4, 2)), (f(5), i(2)), (f(4, 3), f(4, 3)), (f(4, 3), u(4, 1))], dict(axis=[0, 1, -1, None, 4], mode=["clip", "fill", "promise_in_bounds"], fill_value=[7]), [(S(4, 3), i(4, 3)), (S(5), i(2))]),
    tile=([(f(2, 3), 2), (f(2, 3), (2, 1)), (f(2, 3), (2, 1, 3)), (f(3), (2, 2)), (f(), 3), (f(2, 3), [2, 2]), (f(2), -1)], dict(), [(S(2, 3), 2)]),
    transpose=([(f(2, 3),), (f(2, 3, 4),), (f(3),), (f(),)], dict(axes=[(1, 0), [1, 0], (0, 1), (2, 0, 1), (-1, 0), (0, 0), (0,)]), [(S(2, 3),), (S(2, 3, 4),)]),
    swapaxes=([(f(2, 3), 0, 1), (f(2, 3), 1, 0), (f(2, 3, 4), 0, 2), (f(2, 3, 4), -1, 1), (f(2, 3), 0, 0), (f(2, 3), 0, 2)], dict(), [(S(2, 3), 0, 1)]),
    moveaxis=([(f(2, 3), 0, 1), (f(2, 3, 4), 0, 2), (f(2, 3, 4), -1, 0), (f(2, 3, 4), (0, 1), (2, 0)), (f(2, 3, 4), [0, 1], [-1, -2]), (f(2, 3), 0, 2), (f(2, 3, 4), (0, 1), 1)], dict(), [(S(2, 3), 0, 1)]),
    broadcast_to=([(f(3), (2, 3)), (f(), (2,)), (f(2, 1), (2, 4)), (f(2), (3,)), (i(3), 3), (f(3), [2, 3])], dict(out_sharding=SHARD), [(S(3), (2, 3))]),
    broadcast_arrays=([(f(3), f(2, 1)), (f(3),), (f(), i(2)), (f(2), f(3)), (), (f(3), 1.0)], dict(), [(S(3), S(2, 1))]),
    atleast_1d=([(f(),), (f(3),), (f(), i(2)), (), (1.0,)], dict(), [(S(),)]),
    atleast_2d=([(f(),), (f(3),), (f(2, 3),), (f(), i(2)), (), (1.0,)], dict(), [(S(),)]),
    atleast_3d=([(f(),), (f(3),), (f(2, 3),), (f(2, 3, 4),), (f(), i(2)), (), (1.0,)], dict(), [(S(),)]),
    expand_dims=([(f(2, 3), 0), (f(2, 3), 1), (f(2, 3), -1), (f(2, 3), (0, 2)), (f(2, 3), [0, 1]), (f(), 0), (f(2), 4)], dict(), [(S(2, 3), 0), (S(), 0)]),
    squeeze=([(f(1, 3),), (f(1, 3, 1),), (f(2, 3),), (f(),)], dict(axis=[0, -1, 2, (0, 2), [0], (0,), 1]), [(S(1, 3),), (S(1, 3, 1),)]),
    repeat=([(f(2, 3), 2), (f(3), 0), (f(3), i(3)), (f(2, 3), (1, 2)), (f(2, 3), (1, 0, 2)), (f(), 3), (f(3), -1)], dict(axis=[0, 1, -1, 3], total_repeat_length=[4, 9], out_sharding=SHARD), [(S(3), 2), (S(2, 3), 2)]),
    split=([(f(6), 2), (f(6), 4), (f(6, 4), 2), (f(6), (1, 4)), (f(6), [2]), (f(6, 4), (1, 9)), (f(5), [])], dict(axis=[0, 1, -1, 3]), [(S(6), 2), (S(6, 4), 2)]),
    full_like=([(f(2, 3), 1), (i(2, 3), 2.5), (f(2, 3), f()), (f(2, 3), f(3)), (f(2, 3), True), (2.0, 1), (f(2), f(3))], dict(dtype=DT, shape=[(4,), (2, 2), 3], device=[cpu]), [(S(2, 3), 1)]),
    zeros_like=([(f(2, 3),), (i(2),), (f(),), (2.0,), (b8(2),)], dict(dtype=DT, shape=[(4,), (2, 2), 3], device=[cpu], out_sharding=SHARD), [(S(2, 3),)]),
    ones_like=([(f(2, 3),), (i(2),), (f(),), (2.0,), (b8(2),)], dict(dtype=DT, shape=[(4,), (2, 2), 3], device=[cpu], out_sharding=SHARD), [(S(2, 3),)]),
    equal=([(f(2, 3), f(2, 3)), (f(2, 3), f(3)), (i(3), 2), (2, i(3)), (u(3), f(3)), (f(2), f(3)), (b8(2), b8(2))], dict(), [(S(3), S(3))]),
    not_equal=([(f(2, 3), f(2, 3)), (f(2, 3), f(3)), (i(3), 2), (2, i(3)), (u(3), f(3)), (f(2), f(3)), (b8(2), b8(2))], dict(), [(S(3), S(3))]),
    isclose=([(f(2, 3), f(2, 3)), (f(2, 3), f(3)), (i(3), i(3)), (f(3), 2.0), (2.0, f(3)), (f(2), f(3)), (b8(3), b8(3))], dict(rtol=[0.5, 0.0, f()], atol=[0.25, 0.0, 3.0], equal_nan=[True]), [(S(3), S(3))]),
    allclose=([(f(2, 3), f(2, 3)), (f(2, 3), f(3)), (i(3), i(3)), (f(3), 2.0), (f(2), f(3)), (b8(3), b8(3))], dict(rtol=[0.5, 0.0, f()], atol=[0.25, 0.0, 3.0], equal_nan=[True]), [(S(3), S(3))]),
    roll=([(f(2, 3), 1), (f(2, 3), -2), (f(4), 0), (f(2, 3), (1, 2)), (f(2, 3), i()), (f(2, 3), [1, 1])], dict(axis=[0, 1, -1, (0, 1), (1, 0), 4]), [(S(2, 3), 1)]),
    flip=([(f(2, 3),), (f(4),), (f(),)], dict(axis=[0, 1, -1, (0, 1), (), 4]), [(S(2, 3),)]),
    rot90=([(f(2, 3),), (f(2, 3, 4),), (f(3),)], dict(k=[0, 2, 3, -1, 5], axes=[(1, 0), (0, -1), (1, 2), (0, 0)]), [(S(2, 3),)]),
    astype=([(f(2, 3), jnp.int32), (f(2, 3), jnp.float32), (i(2), jnp.bool_), (b8(3), jnp.float16), (f(2), np.dtype("uint8")), (f(2), None), (f(2), "int8")], dict(copy=[True], device=[cpu]), [(S(3), jnp.int32)]),
    result_type=([(f(2), i(3)), (f(2),), (u(2), i(2)), (jnp.float16, jnp.bfloat16), (i(2), 2.0), (u(2), 3), (), (b8(2), np.dtype("int8"))], dict(), []),
    can_cast=([(jnp.int32, jnp.float32), (jnp.float32, jnp.int32), (jnp.uint8, jnp.int16), (jnp.int16, jnp.uint8), (jnp.float32, jnp.bfloat16), ("int8", "int16"), (jnp.complex64, jnp.float32), (jnp.int32, jnp.uint32)],
              dict(casting=["no", "equiv", "same_kind", "unsafe", "bad"]), []),
)


def run(ck):
    ck.assume += ["argument values are enumerated (every optional argument alone and in pairs, by keyword and by position); array contents are universally quantified",
                  "the namesake is the function of that name in the installed array library; flatten stands for ravel"]
    names = sorted(pub.__all__)
    namespaces(ck)
    for n in names:
        ck.ob(SURE, n, n in TABLE or n in OWN, "no namesake table", where_of(getattr(core, n, core)))
    todo = [n for n in names if n in TABLE]
    ck.fan([(",".join(todo[k::8]), {}) for k in range(8)])


def part(ck, label):
    for n in label.split(","):
        one(ck, n)


# ---------------------------------------------------------------- lowering
def arrays_of(x):
    """placeholder -> tracer substitution: (list of abstract values, rebuild)"""
    found = []

    def scan(v):
        if isinstance(v, Arr):
            found.append(sds(v.shape, jnp.dtype(v.dt)))
        elif isinstance(v, St):
            found.append(kinds.make(v.K, v.batch))
        elif isinstance(v, dict):
            for q in v.values():
                scan(q)
        elif isinstance(v, (list, tuple)):
            for q in v:
                scan(q)
    scan(x)

    def rebuild(tr):
        it = iter(tr)

        def go_(v):
            if isinstance(v, (Arr, St)):
                return next(it)
            if isinstance(v, dict):
                return {k: go_(q) for k, q in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(go_(q) for q in v)
            return v
        return go_(x)
    return found, rebuild


def norm(t):
    return [norm(q) for q in t] if isinstance(t, (list, tuple)) else t


def program(fn, args, kw):
    """('err', exception) or ('ok', program function, abstract inputs, static part, jaxpr text)"""
    ins, rebuild = arrays_of((args, kw))
    static = []

    def run_(*tr):
        a, k = rebuild(tr)
        out = fn(*a, **k)
        leaves, td = jax.tree_util.tree_flatten(norm(out))
        arr = [isinstance(l, (jax.Array, np.ndarray, jax.core.Tracer)) for l in leaves]
        static[:] = [str(td), [None if q else (type(l).__name__, repr(l)) for q, l in zip(arr, leaves)]]
        return [l for q, l in zip(arr, leaves) if q]
    try:
        closed, osh = jax.make_jaxpr(run_, return_shape=True)(*ins)
    except Exception as e:
        return ("err", e)
    return ("ok", run_, ins, list(static), str(closed) + "|".join(repr(c) for c in closed.consts) + repr(osh))


def same(p, q):
    """the two programs compute the same outputs: identical IR, or else identical value numbers"""
    if p[3] != q[3]:
        return f"result {p[3]} instead of {q[3]}"
    if p[4] == q[4]:
        return None
    nm = [f"x{k}" for k in range(len(p[2]))]
    try:
        a, b = analyze(p[1], p[2], nm), analyze(q[1], q[2], nm)
    except TraceError:
        raise
    if len(a.flat) != len(b.flat):
        return f"{len(a.flat)} outputs instead of {len(b.flat)}"
    for (k, (x, sx)), (y, sy) in zip(a.outs.items(), b.outs.values()):
        if (tuple(sx.shape), sx.dtype) != (tuple(sy.shape), sy.dtype):
            return f"output {k} is {sx.dtype}{list(sx.shape)} instead of {sy.dtype}{list(sy.shape)}"
        for ix in np.ndindex(*x.shape):
            if lift_arr(x)[ix] is not lift_arr(y)[ix]:
                return f"output {k}{list(ix)} is {G.show(lift_arr(x)[ix])} instead of {G.show(lift_arr(y)[ix])}"
    return None


def show(v):
    return getattr(v, "__name__", None) or repr(v)


def text(args, kw):
    return ", ".join([show(a) for a in args] + [f"{k}={show(v)}" for k, v in kw.items()])


# ---------------------------------------------------------------- one function
def one(ck, n):
    X, J = getattr(core, n, None) or getattr(pub, n), getattr(jnp, NAMESAKE.get(n, n))
    cases, opts, structs = TABLE[n]
    w = where_of(X)
    sig = inspect.signature(J)
    order = [p.name for p in sig.parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]

    def compare(args, kw, how=""):
        inst = f"{n}({text(args, kw)}){how}"
        p, q = program(X, args, kw), program(J, args, kw)
        if (p[0] == "err") != (q[0] == "err"):
            return ck.ob(REJ, inst, False, f"{'rejected: ' + repr(p[1])[:200] if p[0] == 'err' else 'accepted'} but the array library {'rejects: ' + repr(q[1])[:200] if q[0] == 'err' else 'accepts'} it", w)
        if p[0] == "err":
            return ck.ob(REJ, inst, True, where=w)
        ck.configs += 1
        d = same(p, q)
        ck.ob(SAME, inst, d is None, d, w)

    for args in cases:
        compare(args, {})
        for k, vals in opts.items():
            for v in vals + [Bogus()]:
                compare(args, {k: v})
                if k in order and order.index(k) >= len(args):
                    # the same call by position, every argument in between at its library default
                    mid = order[len(args):order.index(k)]
                    if all(sig.parameters[m].default is not inspect.Parameter.empty for m in mid):
                        compare(args + tuple(sig.parameters[m].default for m in mid) + (v,), {})
        for (k1, v1), (k2, v2) in itertools.combinations(opts.items(), 2):
            for a, b in itertools.product(v1[:3] if not ck.thorough else v1, v2[:3] if not ck.thorough else v2):
                compare(args, {k1: a, k2: b})
        if opts:
            compare(args, {k: v[0] for k, v in opts.items()})
        if ck.thorough:
            for c in itertools.combinations(opts.items(), 3):
                for vs in itertools.product(*(v[:2] for _, v in c)):
                    compare(args, {k: v for (k, _), v in zip(c, vs)})
    # leading arguments by name
    named = [p.name for p in sig.parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    if len(named) == len(order) and named:
        for args in cases:
            if 0 < len(args) <= len(named):
                for cut in range(len(args)):
                    kw = dict(zip(named[cut:], args[cut:]))
                    xs = inspect.signature(X).parameters
                    if all(k in xs for k in kw):
                        compare(args[:cut], kw, " named")
    ck.ob(SURE, f"{n} has an accepted call", ck.rules.get(SAME, [0])[0] > 0, where=w)

    # ------------------------------------------------------------ structures
    for args in structs:
        p0 = program(X, args, {})
        for k, vals in opts.items():
            ways = [({k: v}, args, v) for v in vals + [Bogus()]]
            for v in vals + [Bogus()]:
                if k in order and order.index(k) >= len(args):
                    mid = order[len(args):order.index(k)]
                    ways.append(({}, args + tuple(sig.parameters[m].default for m in mid) + (v,), v))
            for kw, a, v in ways:
                inst = f"{n}({text(a, kw)})"
                p = program(X, a, kw)
                if p[0] == "err":
                    if not isinstance(v, Bogus):
                        ck.ob(USED, inst, True, where=w)
                    else:
                        ck.ob(BOGUS, inst, True, where=w)
                    continue
                ck.configs += 1
                if isinstance(v, Bogus):
                    refused = all(program(J, c, kw)[0] == "err" for c in leafwise(a))
                    ck.ob(BOGUS, inst, not refused, "accepted although the array library refuses it for every field", w)
                    continue
                if p0[0] == "err" or p[4] != p0[4] or p[3] != p0[3]:
                    ck.ob(USED, inst, True, where=w)
                    continue
                # no effect: only acceptable when the array library shows none on any field either
                why = None
                for c, c0 in zip(leafwise(a), leafwise(args)):
                    q0, q = program(J, c0, {}), program(J, c, kw)
                    if q[0] == "err" and q0[0] == "ok":
                        why = f"ignored although the array library rejects it: {q[1]!r}"[:300]
                    elif q[0] == "ok" and q0[0] == "ok" and (q[4] != q0[4] or q[3] != q0[3]):
                        why = "ignored although it changes what the array library builds"
                if why is None and getattr(v, "__module__", "").startswith("jax") is False and False:
                    pass
                ck.ob(USED, inst, why is None, why, w)
                if k in ("out_sharding", "device"):
                    # a placement request leaves no trace in the program: it has to reach the array library or be rejected
                    r = reaches(X, a, kw, k, v)
                    ck.ob(USED, inst + " reaches the array library", r, "the placement request is dropped", w)


def leafwise(args):
    """the argument list with each structure replaced by its k-th field"""
    nl = max((len(kinds.leaf_specs(x.K)) for x in flat(args) if isinstance(x, St)), default=0)

    def sub(v, k):
        if isinstance(v, St):
            _, dt, sh = kinds.leaf_specs(v.K)[k]
            return Arr(v.batch + sh, dt)
        if isinstance(v, (list, tuple)):
            return type(v)(sub(q, k) for q in v)
        return v
    return [sub(tuple(args), k) for k in range(nl)]


def flat(v):
    if isinstance(v, (list, tuple)):
        for q in v:
            yield from flat(q)
    else:
        yield v


def reaches(X, args, kw, k, v):
    """taint: the exact value object is handed to some array-library call"""
    hit = []

    class Spy:
        def __getattr__(self, name):
            o = getattr(jnp, name)
            if not callable(o) or isinstance(o, type):
                return o

            def call(*a, **kk):
                if any(x is v for x in list(a) + list(kk.values())):
                    hit.append(name)
                return o(*a, **kk)
            return call
    mods = [m for mn, m in list(sys.modules.items()) if mn.startswith("xtructure.") and getattr(m, "jnp", None) is jnp]
    for m in mods:
        m.jnp = Spy()
    try:
        program(X, args, kw)
    finally:
        for m in mods:
            m.jnp = jnp
    return bool(hit)


# ---------------------------------------------------------------- namespaces
def namespaces(ck):
    w = (rel(pub.__file__), 1, "xtructure_numpy")
    sets = {"xtructure.xtructure_numpy": pub, "xtructure.numpy": alias}
    base = set(core.__all__)
    for nm, m in sets.items():
        decl = getattr(m, "__all__", None)
        names = set(decl) if decl is not None else {x for x in vars(m) if not x.startswith("_") and callable(getattr(m, x))}
        ck.ob(NS, f"{nm} against the implementation", names == base, f"missing {sorted(base - names)}, extra {sorted(names - base)}", (rel(m.__file__), 1, nm.split(".")[-1]))
        if decl is not None:
            ck.ob(NS, f"{nm} lists each name once", len(decl) == len(set(decl)), str(decl), w)
        for n in sorted(base | names):
            ck.ob(NS, f"{nm}.{n}", getattr(m, n, None) is not None and getattr(m, n) is getattr(core, n, None), "not the implementation's function", (rel(m.__file__), 1, nm.split(".")[-1]))
    # what a star import gives
    for m in (pub, alias):
        g = {}
        exec(f"from {m.__name__} import *", g)
        got = {k for k in g if not k.startswith("__")}
        ck.ob(NS, f"from {m.__name__} import *", got == base, f"missing {sorted(base - got)}, extra {sorted(got - base)}", (rel(m.__file__), 1, m.__name__))
    ck.ob(NS, "xtructure.numpy attribute", all(getattr(xtructure.numpy, n, None) is getattr(core, n, None) for n in base), "", (rel(xtructure.__file__), 1, "xtructure"))
    ck.ob(NS, "top-level exports resolve", all(hasattr(xtructure, n) for n in xtructure.__all__), str([n for n in xtructure.__all__ if not hasattr(xtructure, n)]), (rel(xtructure.__file__), 1, "xtructure"))
