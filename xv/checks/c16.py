"""C16 packed fields: bit provenance of the unpacked view of written values; identity of everything else."""
import numpy as np
from ..trace import *
from ..common import *
from xtructure import xtructure_dataclass, FieldDescriptor as F

RT = "the unpacked view returns exactly what was written"
KEEP = "writing a packed field leaves every other field unchanged"
STORE = "the declared storage shape and dtype are what packing produces"
META = "the unpacked view has the declared logical shape and dtype"
BAD = "ill-formed packed writes are rejected"


def cls(fields, name="P"):
    return xtructure_dataclass(type(name, (), {"__annotations__": dict(fields), "__module__": __name__}))


def dflt(b):
    return np.bool_ if b == 1 else np.uint8 if b <= 8 else np.uint32


def decls(ck):
    """(label, field list [(name, bits, logical shape, logical dtype or None)])"""
    out = [(f"{b} bits x {sh}", [("p", b, sh, None)]) for b in range(1, 33) for sh in ((5,),)]
    out += [(f"{b} bits x {sh}", [("p", b, sh, None)]) for b in (1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 24, 31, 32) for sh in ((), (1,), (2, 3), (3, 1, 3), (0,), (17,))]
    out += [(f"{b} bits as {np.dtype(t)}", [("p", b, (6,), t)]) for b, t in ((1, np.uint8), (1, np.int32), (1, np.bool_), (3, np.int32), (3, np.uint16), (7, np.int8), (8, np.int32), (8, np.uint32), (12, np.uint16), (12, np.int32), (31, np.int32), (16, np.uint32))]
    out += [("two packed fields", [("p", 3, (5,), None), ("r", 12, (3,), None)]), ("same width twice", [("p", 5, (4,), None), ("r", 5, (4,), np.int32)]), ("three packed fields", [("p", 1, (9,), None), ("r", 4, (3,), None), ("s", 20, (2, 2), None)])]
    return out


def run(ck):
    ck.assume += ["field shapes and batch shapes are enumerated; widths are exhaustive; written values are universally quantified over the declared width",
                  "floating point logical dtypes are outside the property (packing converts them to integers)"]
    for lab, fs in decls(ck):
        ann = dict(u=F.scalar(dtype=jnp.uint32))
        for n, b, sh, dt in fs:
            ann[n] = F.packed_tensor(packed_bits=b, shape=sh) if dt is None else F.packed_tensor(packed_bits=b, shape=sh, unpacked_dtype=jnp.dtype(dt))
        ann["v"] = F.tensor(dtype=jnp.float32, shape=(2,))
        K = guard(ck, STORE, lab, lambda: cls(ann))
        if K is None:
            continue
        for batch in [(), (3,), (2, 2)] + ([(0,)] if fs[0][1] in (1, 3, 8, 12, 32) else []) + ([(1,), (5, 1, 2)] if ck.thorough else []):
            one(ck, lab, K, fs, batch)
    bad(ck)
    nested(ck)
    large(ck)


def storage_len(b, sh):
    """bytes: the lcm(bits, 8)-bit blocks the values need"""
    n = int(np.prod(sh))
    if b in (1, 2, 4, 8):
        return -(-n * b // 8)
    L = int(np.lcm(b, 8))
    return -(-n // (L // b)) * (L // 8)


def inst_of(K, fs, batch):
    return K(u=sds(batch, np.uint32), v=sds(batch + (2,), np.float32), **{n: sds(batch + (storage_len(b, sh),), np.uint8) for n, b, sh, dt in fs})


def expect(src, b, dt):
    from .c15 import low
    e = np.empty(src.shape, dtype=object)
    base = np.dtype(dflt(b))
    for i in np.ndindex(*src.shape):
        e[i] = G.cvt(low(src[i], b, base), dt)
    return e


def one(ck, lab, K, fs, batch):
    I = f"{lab}, batch {batch}"
    w = where_of(K.set_unpacked)
    n0 = [n for n, *_ in fs]
    vals = {n: sds(batch + sh, dt or dflt(b)) for n, b, sh, dt in fs}
    x = inst_of(K, fs, batch)
    from xtructure.core.field_descriptors import get_field_descriptors
    for n, b, sh, dt in fs:
        d = get_field_descriptors(K)[n]
        ck.ob(STORE, f"{I} {n} declaration", (tuple(d.intrinsic_shape), np.dtype(d.dtype)) == ((storage_len(b, sh),), np.dtype(np.uint8)), f"{d.intrinsic_shape} {d.dtype}", where_of(F.packed_tensor))

    def views(y):
        return {n: getattr(y, n + "_unpacked") for n in n0}

    def judge(R, I, written, w):
        for n, b, sh, dt in fs:
            if n not in written:
                continue
            o, s = R.outs["0." + n]
            ck.ob(META, f"{I} {n}", (tuple(s.shape), s.dtype) == (batch + sh, np.dtype(dt or dflt(b))), s, where_of(getattr(K, n + "_unpacked")))
            if s.dtype == np.dtype(dt or dflt(b)):
                ck.eqbits(RT, f"{I} {n}", o, expect(R.ins["w." + n], b, s.dtype), where_of(getattr(K, n + "_unpacked")))
            o, s = R.outs["1." + n]
            ck.ob(STORE, f"{I} {n} stored", (tuple(s.shape), s.dtype) == (batch + (storage_len(b, sh),), np.dtype(np.uint8)), s, w)

    subsets = [tuple(n0)] + ([(n,) for n in n0] if len(n0) > 1 else [])
    for sub in subsets:
        R = go(ck, RT, f"{I} set_unpacked{sub}", lambda x, w: (lambda y: (views(y), y))(x.set_unpacked(**{n: w[n] for n in sub})), (x, {n: vals[n] for n in sub}), ["x", "w"])
        if R is None:
            continue
        judge(R, f"{I} set_unpacked{sub}", sub, w)
        for o in [k for k in ["u", "v"] + n0 if k not in sub]:
            ck.eq(KEEP, f"{I} set_unpacked{sub} {o}", R.outs["1." + o][0], R.ins["x." + o], w)
    # constructors
    R = go(ck, RT, f"{I} from_unpacked(all)", lambda u, v, w: (lambda y: (views(y), y))(K.from_unpacked(shape=batch, u=u, v=v, **w)), (x.u, x.v, vals), ["u", "v", "w"])
    w = where_of(K.from_unpacked)
    if R is not None:
        judge(R, f"{I} from_unpacked(all)", n0, w)
        for o in "uv":
            ck.eq(KEEP, f"{I} from_unpacked(all) {o}", R.outs["1." + o][0], R.ins[o], w)
    R = go(ck, RT, f"{I} from_unpacked(some)", lambda v, w: (lambda y: (views(y), y))(K.from_unpacked(shape=batch, v=v, **w)), (x.v, {n0[0]: vals[n0[0]]}), ["v", "w"])
    if R is not None:
        judge(R, f"{I} from_unpacked(some)", n0[:1], w)
        ck.eq(KEEP, f"{I} from_unpacked(some) v", R.outs["1.v"][0], R.ins["v"], w)
        ck.eq(KEEP, f"{I} from_unpacked(some) u", R.outs["1.u"][0], np.full(batch, 0xFFFFFFFF, np.uint32), w)
        for n, b, sh, dt in fs[1:]:
            ck.eq(KEEP, f"{I} from_unpacked(some) {n}", R.outs["1." + n][0], np.zeros(batch + (storage_len(b, sh),), np.uint8), w)


def bad(ck):
    K = cls(dict(u=F.scalar(dtype=jnp.uint32), p=F.packed_tensor(packed_bits=3, shape=(5,)), q=F.packed_tensor(packed_bits=12, shape=(5,))))
    x = K(u=sds((3,), np.uint32), p=sds((3, 3), np.uint8), q=sds((3, 9), np.uint8))
    v = sds((3, 5), np.uint8)
    ws, wf = where_of(K.set_unpacked), where_of(K.from_unpacked)
    K2 = cls(dict(u=F.scalar(dtype=jnp.uint32), p=F.packed_tensor(packed_bits=3, shape=(5,))))
    odd = K2(u=sds((3,), np.uint32), p=sds((2, 3), np.uint8))
    for lab, f, a in (("batch mismatch", lambda x, v: x.set_unpacked(p=v), (x, sds((2, 5), np.uint8))), ("trailing mismatch", lambda x, v: x.set_unpacked(p=v), (x, sds((3, 6), np.uint8))),
                      ("missing batch", lambda x, v: x.set_unpacked(p=v), (x, sds((5,), np.uint8))), ("transposed", lambda x, v: x.set_unpacked(p=v), (x, sds((5, 3), np.uint8))),
                      ("unknown field", lambda x, v: x.set_unpacked(zz=v), (x, v)), ("not a packed field", lambda x, v: x.set_unpacked(u=v), (x, sds((3,), np.uint32))),
                      ("unstructured", lambda x, v: x.set_unpacked(p=v), (odd, v)), ("read unstructured", lambda x, v: x.p_unpacked, (odd, v))):
        rejects(ck, BAD, "set_unpacked " + lab, f, a, ws)
    for lab, f, a in (("batch mismatch", lambda v: K2.from_unpacked(shape=(2,), p=v), (v,)), ("trailing mismatch", lambda v: K2.from_unpacked(shape=(3,), p=v), (sds((3, 4), np.uint8),)),
                      ("unknown field", lambda v: K2.from_unpacked(shape=(3,), zz=v), (v,)), ("unknown field beside all", lambda u, v: K2.from_unpacked(shape=(3,), u=u, p=v, zz=v), (sds((3,), np.uint32), v))):
        rejects(ck, BAD, "from_unpacked " + lab, f, a, wf)


def nested(ck):
    """packed fields of a nested structure: the view sees the outer batch and tensor axes as its batch"""
    In = cls(dict(a=F.scalar(dtype=jnp.int32), p=F.packed_tensor(packed_bits=5, shape=(3,))), "In")
    Out = cls(dict(k=F.scalar(dtype=jnp.uint8), one=F.scalar(dtype=In), arr=F.tensor(dtype=In, shape=(2,))), "Out")

    def mk(b):
        return In(a=sds(b, np.int32), p=sds(b + (5,), np.uint8))
    for batch in ((), (3,), (2, 2)):
        o = Out(k=sds(batch, np.uint8), one=mk(batch), arr=mk(batch + (2,)))
        for f, b in (("one", batch), ("arr", batch + (2,))):
            I = f"nested {f} batch {batch}"
            R = go(ck, RT, I, lambda x, w: (lambda y: (getattr(y, f).p_unpacked, y))(x.replace(**{f: getattr(x, f).set_unpacked(p=w)})), (o, sds(b + (3,), np.uint8)), ["x", "w"])
            if R is None:
                continue
            ck.eqbits(RT, I, R.outs["0"][0], expect(R.ins["w"], 5, np.dtype(np.uint8)), where_of(In.set_unpacked))
            for q, (v, s) in R.outs.items():
                if q.startswith("1.") and q != f"1.{f}.p":
                    ck.eq(KEEP, f"{I} {q}", v, R.ins["x" + q[1:]], where_of(In.set_unpacked))


def large(ck):
    """a field longer than every narrow index type can count: positions of far values are computed without wrapping"""
    for b, n in [(7, 9400)] + ([(1, 65600), (31, 2120), (12, 5500), (3, 22000)] if ck.thorough else []):
        fs = [("p", b, (n,), None)]
        lab = f"{b} bits x ({n},)"
        K = guard(ck, STORE, lab, lambda: cls(dict(u=F.scalar(dtype=jnp.uint32), p=F.packed_tensor(packed_bits=b, shape=(n,)), v=F.tensor(dtype=jnp.float32, shape=(2,)))))
        if K is None:
            continue
        R = go(ck, RT, lab, lambda x, w: x.set_unpacked(p=w).p_unpacked, (inst_of(K, fs, ()), sds((n,), dflt(b))), ["x", "w"])
        if R is None:
            continue
        w = where_of(K.p_unpacked)
        if ck.ob(META, lab, (tuple(R.oshape.shape), R.oshape.dtype) == ((n,), np.dtype(dflt(b))), R.oshape, w):
            ck.eqbits(RT, lab, R.flat[0], expect(R.ins["w"], b, R.oshape.dtype), w)
