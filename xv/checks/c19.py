"""C19 default(): constant propagation through the generated constructor for declared dtypes, shapes and fills."""
import typing
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import xtructure_dataclass, FieldDescriptor as F

DTYPES = ["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32"]


def sentinel(dt):
    dt = jnp.dtype(dt)
    if dt == bool:
        return False
    if dt.kind == "u":
        return np.iinfo(dt).max
    return 0 if dt.kind == "i" else np.inf


def iota(shape, dtype):
    return jnp.arange(int(np.prod(shape)), dtype=dtype).reshape(shape)


def variants():
    """(label, descriptor builder, dtype, shape, fill or callable(full_shape)->array)"""
    for d in DTYPES:
        t = getattr(jnp, "bool_" if d == "bool" else d)
        yield f"{d} undeclared", lambda t=t: F.scalar(dtype=t), d, (), sentinel(d)
        yield f"{d}[2,3] undeclared", lambda t=t: F.tensor(dtype=t, shape=(2, 3)), d, (2, 3), sentinel(d)
        for v in ((False, True) if d == "bool" else (0, 1, 7)):
            yield f"{d} default={v}", lambda t=t, v=v: F.scalar(dtype=t, default=v), d, (), v
            yield f"{d}[4] fill={v}", lambda t=t, v=v: F.tensor(dtype=t, shape=(4,), fill_value=v), d, (4,), v
        if d[0] in "if":
            yield f"{d} default=-3", lambda t=t: F.scalar(dtype=t, default=-3), d, (), -3
        yield f"np dtype {d}", lambda d=d: F(jnp.dtype(d)), d, (), sentinel(d)
        yield f"np dtype {d}[3]", lambda d=d: F(jnp.dtype(d), (3,), 1), d, (3,), 1
        yield f"[] {d}", lambda t=t: F[t], d, (), sentinel(d)
        yield f"[] {d},shape", lambda t=t: F[t, (2,)], d, (2,), sentinel(d)
        yield f"[] {d},fill", lambda t=t: F[t, 1], d, (), 1
        yield f"[] {d},shape,fill", lambda t=t: F[t, (2,), 1], d, (2,), 1
        yield f"Annotated {d}", lambda t=t: typing.Annotated[jax.Array, F.scalar(dtype=t)], d, (), sentinel(d)
        if d != "bool":
            yield f"{d} factory", lambda t=t: F.tensor(dtype=t, shape=(3,), fill_value_factory=iota), d, (3,), lambda s: np.arange(int(np.prod(s))).reshape(s)
            yield f"np dtype {d} factory", lambda d=d: F(jnp.dtype(d), (3,), fill_value_factory=iota), d, (3,), lambda s: np.arange(int(np.prod(s))).reshape(s)
            yield f"[] np dtype {d} factory", lambda d=d: F(jnp.dtype(d), fill_value_factory=lambda s, dt: jnp.full(s, 5, dt)), d, (), lambda s: np.full(s, 5)
            yield f"{d} scalar factory", lambda t=t: F.scalar(dtype=t, fill_value_factory=lambda s, dt: len(s)), d, (), lambda s: np.full(s, len(s))
    for v in (0.5, -np.inf, np.inf, np.nan):
        yield f"float32 default={v}", lambda v=v: F.scalar(dtype=jnp.float32, default=v), "float32", (), v
    yield "uint32 default=max-1", lambda: F.scalar(dtype=jnp.uint32, default=2**32 - 2), "uint32", (), 2**32 - 2
    yield "int32 default=min", lambda: F.scalar(dtype=jnp.int32, default=-2**31), "int32", (), -2**31
    yield "empty", lambda: F.tensor(dtype=jnp.uint8, shape=(0,)), "uint8", (0,), 255
    yield "deep shape", lambda: F.tensor(dtype=jnp.int16, shape=(1, 2, 1, 3)), "int16", (1, 2, 1, 3), 0
    yield "bits", lambda: F.tensor(dtype=jnp.uint8, shape=(3,), bits=3, fill_value=2), "uint8", (3,), 2
    for pb, n, nb in ((1, 9, 2), (3, 5, 3), (2, 5, 2), (4, 3, 2), (12, 3, 6), (8, 4, 4)):
        yield f"packed {pb}x{n}", lambda pb=pb, n=n: F.packed_tensor(packed_bits=pb, shape=(n,)), "uint8", (nb,), 0
        yield f"packed {pb}x{n} fill 5", lambda pb=pb, n=n: F.packed_tensor(packed_bits=pb, shape=(n,), fill_value=5), "uint8", (nb,), 5


def mkclass(name, ann):
    return xtructure_dataclass(type(name, (), {"__annotations__": ann, "__module__": "xv.generated"}))


def expect(fill, dt, shape):
    dt = jnp.dtype(dt)
    v = fill(shape) if callable(fill) else np.broadcast_to(np.asarray(fill), shape)
    return np.asarray(v).astype(dt)


def run(ck):
    ck.assume += ["64-bit dtypes are not analysed: JAX canonicalises them away unless x64 is enabled"]
    batches = [(), (3,), (2, 3), (0,), (1, 1, 2)] + ([(5, 1, 2, 2), (17,)] if ck.thorough else [])
    vs = list(variants())
    # one class per variant and one class holding them all, plus nested
    groups = [[v] for v in vs] + [vs[i::7] for i in range(7)]
    w = ("xtructure/core/xtructure_decorators/default.py", 0, "default")
    for gi, g in enumerate(groups):
        lab = g[0][0] if len(g) == 1 else f"group{gi}"
        try:
            K = mkclass(f"K{gi}", {f"f{i}": v[1]() for i, v in enumerate(g)})
        except Exception as e:
            ck.ob("a well-formed declaration is accepted", lab, False, f"{type(e).__name__}: {e}", repo_frame(e))
            continue
        w = where_of(K.default)
        for b in batches:
            R = go(ck, "default", f"{lab} batch={b}", lambda K=K, b=b: K.default(b), (), [])
            if R is None:
                continue
            ck.ob("the fields come in declared order", f"{lab} batch={b}", list(R.outs) == [f"f{i}" for i in range(len(g))], list(R.outs), w)
            for i, (l, _, dt, sh, fill) in enumerate(g):
                check(ck, f"{l} batch={b}", R.outs.get(f"f{i}"), dt, b + sh, fill, w)
        R = go(ck, "default", f"{lab} no argument", lambda K=K: K.default(), (), [])
        if R is not None:
            for i, (l, _, dt, sh, fill) in enumerate(g):
                check(ck, f"{l} no argument", R.outs.get(f"f{i}"), dt, sh, fill, w)
    # nested declarations: scalar, tensor and two levels of nesting
    A = mkclass("A", {"u": F.scalar(dtype=jnp.uint8, default=9), "v": F.tensor(dtype=jnp.float32, shape=(2,))})
    B = mkclass("B", {"a": F.scalar(dtype=A), "k": F.scalar(dtype=jnp.int32, default=-1), "arr": F.tensor(dtype=A, shape=(3,))})
    C = mkclass("C", {"b": F.tensor(dtype=B, shape=(2, 1)), "c": F.scalar(dtype=jnp.bool_, default=True)})
    wa = lambda p, s: [(p + "u", "uint8", s, 9), (p + "v", "float32", s + (2,), np.inf)]
    wb = lambda p, s: wa(p + "a.", s) + [(p + "k", "int32", s, -1)] + wa(p + "arr.", s + (3,))
    wc = lambda p, s: wb(p + "b.", s + (2, 1)) + [(p + "c", "bool", s, True)]
    for K, spec in ((A, wa), (B, wb), (C, wc)):
        for b in batches:
            R = go(ck, "default", f"nested {K.__name__} batch={b}", lambda K=K, b=b: K.default(b), (), [])
            if R is not None:
                ck.ob("the fields come in declared order", f"nested {K.__name__} batch={b}", list(R.outs) == [x[0] for x in spec("", b)], list(R.outs), where_of(K.default))
                for p, dt, sh, fill in spec("", b):
                    check(ck, f"nested {K.__name__}.{p} batch={b}", R.outs.get(p), dt, sh, fill, where_of(K.default))
    for K in kinds.ALL:
        for b in batches:
            R = go(ck, "default", f"{K.__name__} batch={b}", lambda K=K, b=b: K.default(b), (), [])
            if R is None:
                continue
            for p, dt, sh in kinds.leaf_specs(K, batch=b):
                check(ck, f"{K.__name__}.{p} batch={b}", R.outs.get(p), dt, sh, 0 if (K, p) == (kinds.Packed, "p") else sentinel(dt), where_of(K.default))


def check(ck, inst, out, dt, shape, fill, w):
    if out is None:
        return ck.ob("every declared field is present", inst, False, "missing", w)
    o, s = out
    if not ck.ob("declared shape behind the batch shape", inst, tuple(s.shape) == tuple(shape), f"{s.shape} instead of {shape}", w):
        return
    if not ck.ob("declared dtype", inst, s.dtype == jnp.dtype(dt), f"{s.dtype} instead of {dt}", w):
        return
    ck.eq("declared fill value at every position", inst, o, expect(fill, dt, shape), w)
