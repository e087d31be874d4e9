"""C30 validated structures: every well-formed construction builds, every malformed one fails to build (compile-fail witnesses over abstract fields)."""
import itertools
import numpy as np
from ..trace import *
from .. import hashkinds as H
from ..common import *
from xtructure import xtructure_dataclass, FieldDescriptor as F
from xtructure.core.xtructure_decorators import validation

GOOD = "constructing a well-formed instance never raises"
DT = "a field of the wrong dtype is rejected"
SH = "a field of the wrong trailing shape is rejected"
CL = "a nested field of the wrong structure class is rejected"
NSH = "a nested field without its declared trailing batch shape is rejected"
VAL = "a declared validator decides"
KEEP = "the constructed instance holds the given fields"
INV = "check_invariants judges an instance of an unvalidated class in the same way"
DTYPES = ["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32", "complex64"]
WIDE = ["uint64", "int64", "float64"]


def run(ck):
    ck.assume += ["dtypes, declared shapes and batch shapes are enumerated; field contents are universally quantified (the program is only lowered)",
                  "dtypes are those the array library gives the value (Python numbers and 64-bit arrays are canonicalised by it first)"]
    ck.fan([("plain", {}), ("nested", {}), ("x64", {}), ("where", {})])


def cls(name, fields, validate=True, **kw):
    return xtructure_dataclass(validate=validate, **kw)(type(name, (), {"__annotations__": fields, "__module__": __name__}))


def W():
    return where_of(validation.add_runtime_validation)


def attempt(ck, inst, K, vals, bad=None):
    """bad: rule that must reject, or None for a well-formed instance"""
    fn = lambda *a: K(**dict(zip(vals, a)))
    for how, f in (("", fn), (" by position", lambda *a: K(*a))) if list(vals) == list(K.__dataclass_fields__) else (("", fn),):
        if bad is not None:
            rejects(ck, bad, inst + how, f, list(vals.values()), W())
            continue
        R = go(ck, GOOD, inst + how, f, list(vals.values()), list(vals))
        if R is None:
            continue
        for n, v in vals.items():
            if hasattr(v, "dtype") and not hasattr(v, "is_xtructed"):
                ck.eq(KEEP, f"{inst}{how}.{n}", R.outs[n][0], R.ins[n], W())


def part(ck, label):
    dts = DTYPES
    if label == "x64":
        with H.x64():
            arrays(ck, WIDE + ["int32", "float32"], DTYPES + WIDE, [(), (2,)])
        return
    if label == "nested":
        return nested(ck)
    if label == "where":
        return forms(ck)
    arrays(ck, dts, dts, [(), (1,), (2,), (2, 3), (3, 1)] + ([(4, 4), (2, 3, 4), (0,), (1, 1)] if ck.thorough else []))


def arrays(ck, dts, others, shapes):
    for dt in dts:
        for sh in shapes:
            mkF = lambda: F.tensor(dtype=jnp.dtype(dt), shape=sh, fill_value=0) if sh else F.scalar(dtype=jnp.dtype(dt), default=0)
            for pos in (0, 1):
                order = ["x", "other"] if pos == 0 else ["other", "x"]
                fld = {"x": mkF(), "other": F.tensor(dtype=jnp.uint16, shape=(3,), fill_value=0)}
                K = cls(f"V_{dt}_{'x'.join(map(str, sh))}_{pos}", {n: fld[n] for n in order})
                for b in ((), (4,), (2, 5)) if pos == 0 else ((4,),):
                    base = {"x": sds(b + sh, jnp.dtype(dt)), "other": sds(b + (3,), np.uint16)}
                    vals = {n: base[n] for n in order}
                    inst = f"{dt}{list(sh)} field {pos}, batch {list(b)}"
                    attempt(ck, inst, K, vals)
                    for o in others:
                        if o != dt:
                            attempt(ck, f"{inst}: {o}", K, {**vals, "x": sds(b + sh, jnp.dtype(o))}, DT)
                    wrong = set()
                    if sh:
                        for k in range(len(sh)):
                            for d in (-1, 1, 2, -sh[k]):
                                if sh[k] + d >= 0:
                                    wrong.add(b + sh[:k] + (sh[k] + d,) + sh[k + 1:])
                        wrong |= {b + sh[::-1], sh[1:], sh[:-1], b + sh + (sh[-1] + 1,), sh + b, b + sh + (1,), ()}
                        wrong = {q for q in wrong if q[max(0, len(q) - len(sh)):] != sh or len(q) < len(sh)}
                    for q in sorted(wrong):
                        attempt(ck, f"{inst}: shape {list(q)}", K, {**vals, "x": sds(q, jnp.dtype(dt))}, SH)
                    # the other field malformed
                    attempt(ck, f"{inst}: other field int16", K, {**vals, "other": sds(b + (3,), np.int16)}, DT)
                    attempt(ck, f"{inst}: other field shape", K, {**vals, "other": sds(b + (2,), np.uint16)}, SH)


def nested(ck):
    In = cls("VIn", {"a": F.scalar(dtype=jnp.uint8), "b": F.tensor(dtype=jnp.float32, shape=(2,))}, validate=False)
    Tw = cls("VTwin", {"a": F.scalar(dtype=jnp.uint8), "b": F.tensor(dtype=jnp.float32, shape=(2,))}, validate=False)
    In2 = cls("VInChecked", {"a": F.scalar(dtype=jnp.uint8), "b": F.tensor(dtype=jnp.float32, shape=(2,))})
    mk = lambda K, b: K(a=sds(b, np.uint8), b=sds(b + (2,), np.float32))
    for I in (In, In2):
        lift = (lambda v: v) if I is In else (lambda v: v)
        for sh in ((), (3,), (2, 3)):
            K = cls(f"VOut_{I.__name__}_{'x'.join(map(str, sh))}", {"n": F.tensor(dtype=I, shape=sh) if sh else F.scalar(dtype=I), "z": F.scalar(dtype=jnp.uint32)})
            for b in ((), (4,)):
                inst = f"{I.__name__}{list(sh)} batch {list(b)}"
                build = lambda C, q, d=np.uint8: (lambda a, x, z: K(n=C(a=a, b=x), z=z), [sds(q, d), sds(q + (2,), np.float32), sds(b, np.uint32)])
                f, a = build(I, b + sh)
                builds(ck, GOOD, inst, f, a)
                for C in (Tw,):
                    f, a = build(C, b + sh)
                    rejects(ck, CL, inst + f": {C.__name__}", f, a, W())
                for v, lab in ((lambda a, z: K(n=a, z=z), "a plain array"), (lambda a, z: K(n=(a, a), z=z), "a tuple"), (lambda a, z: K(n=None, z=z), "nothing"), (lambda a, z: K(n=I, z=z), "the class itself")):
                    rejects(ck, CL, f"{inst}: {lab}", v, [sds(b + sh, np.uint8), sds(b, np.uint32)], W())
                if sh:
                    for q in {b + sh[:-1] + (sh[-1] + 1,), sh[1:], b + sh + (1,), ()} - {b + sh}:
                        if q[max(0, len(q) - len(sh)):] == sh:
                            continue
                        f, a = build(I, q)
                        rejects(ck, NSH, f"{inst}: batch shape {list(q)}", f, a, W())
                if I is In2:
                    rejects(ck, DT, inst + ": inner dtype", *build(I, b + sh, np.int8), W())
    # two levels
    M = cls("VMid", {"i": F.scalar(dtype=In2)})
    T = cls("VTop", {"m": F.scalar(dtype=M), "j": F.scalar(dtype=In)})
    builds(ck, GOOD, "two levels", lambda a, b: T(m=M(i=In2(a=a, b=b)), j=In(a=a, b=b)), [sds((), np.uint8), sds((2,), np.float32)])
    rejects(ck, CL, "two levels: members exchanged", lambda a, b: T(m=In(a=a, b=b), j=M(i=In2(a=a, b=b))), [sds((), np.uint8), sds((2,), np.float32)], W())
    rejects(ck, DT, "two levels: innermost dtype", lambda a, b: T(m=M(i=In2(a=a, b=b)), j=In(a=a, b=b)), [sds((), np.int8), sds((2,), np.float32)], W())


def forms(ck):
    """the other ways to make an instance, validators, classes that combine validation with packing, and check_invariants"""
    flds = lambda: {"x": F.scalar(dtype=jnp.uint8, default=0), "y": F.tensor(dtype=jnp.float32, shape=(2,), fill_value=0)}
    K = cls("VForms", flds())
    U = cls("VFree", flds(), validate=False)
    x, y = sds((4,), np.uint8), sds((4, 2), np.float32)
    for lab, f in (("default", lambda: K.default()), ("default batch", lambda: K.default((3,))), ("random", lambda: K.random((3,), jax.random.PRNGKey(0)))):
        builds(ck, GOOD, lab, f)
    for lab, f in (("replace", lambda a, b: K(x=a, y=b).replace(x=a)), ("index", lambda a, b: K(x=a, y=b)[0]), ("slice", lambda a, b: K(x=a, y=b)[1:]), ("at set", lambda a, b: K(x=a, y=b).at[0].set(K(x=a[0], y=b[0]))),
                   ("tree_map", lambda a, b: jax.tree_util.tree_map(lambda q: q[0], K(x=a, y=b))), ("vmap", lambda a, b: jax.vmap(lambda p, q: K(x=p, y=q))(a, b)), ("reshape", lambda a, b: K(x=a, y=b).reshape((2, 2))),
                   ("in_axes", lambda a, b: jax.vmap(lambda v: v, in_axes=0)(K(x=a, y=b))), ("batches of different size", lambda a, b: K(x=a[0], y=b))):
        builds(ck, GOOD, lab, f, [x, y])
    rejects(ck, DT, "replace", lambda a, b: K(x=a, y=b).replace(x=b[..., 0]), [x, y], W())
    rejects(ck, SH, "replace", lambda a, b: K(x=a, y=b).replace(y=b[..., :1]), [x, y], W())
    rejects(ck, DT, "python float for an integer", lambda b: K(x=1.5, y=b), [y], W())
    rejects(ck, DT, "text", lambda b: K(x="text", y=b), [y], W())
    rejects(ck, DT, "nothing", lambda b: K(x=None, y=b), [y], W())
    # unvalidated classes accept anything, but judge on request
    builds(ck, INV, "well-formed", lambda a, b: U(x=a, y=b).check_invariants(), [x, y])
    builds(ck, INV, "unvalidated construction", lambda a, b: U(x=b, y=a), [x, y])
    rejects(ck, INV, "dtype", lambda a, b: U(x=a, y=b).check_invariants(), [sds((4,), np.int8), y], W())
    rejects(ck, INV, "shape", lambda a, b: U(x=a, y=b).check_invariants(), [x, sds((4, 3), np.float32)], W())
    rejects(ck, INV, "too few axes", lambda a, b: U(x=a, y=b).check_invariants(), [x, sds((), np.float32)], W())
    # validators
    def need1(v):
        if v.shape[-1] != 2:
            raise ValueError("validator")

    def never(v):
        raise RuntimeError("validator")
    In = cls("VNestV", {"a": F.scalar(dtype=jnp.uint8)}, validate=False)
    for lab, fd, mk, good in (("accepting", F.tensor(dtype=jnp.float32, shape=(2,), validator=need1), lambda b: b, True), ("rejecting", F.tensor(dtype=jnp.float32, shape=(2,), validator=never), lambda b: b, False),
                              ("rejecting scalar", F.scalar(dtype=jnp.float32, validator=never), lambda b: b[..., 0], False), ("rejecting nested", F.scalar(dtype=In, validator=never), lambda b: In(a=b[..., 0].astype(jnp.uint8)), False),
                              ("rejecting packed", F.packed_tensor(packed_bits=1, shape=(5,), validator=never), lambda b: b[..., :1].astype(jnp.uint8), False)):
        for first in (True, False):
            fl = {"v": fd, "z": F.scalar(dtype=jnp.uint8)} if first else {"z": F.scalar(dtype=jnp.uint8), "v": fd}
            C = cls("VVal_" + lab.replace(" ", "_") + str(first), fl)
            f = lambda a, b: C(v=mk(b), z=a)
            if good:
                builds(ck, VAL, f"{lab} {first}", f, [x, y])
            else:
                rejects(ck, VAL, f"{lab} {first}", f, [x, y], W(), (RuntimeError,))
    # with packing
    A = cls("VAgg", {"a": F.scalar(dtype=jnp.uint8, bits=3, default=0), "b": F.tensor(dtype=jnp.bool_, shape=(5,), bits=1, fill_value=False)}, aggregate_bitpack=True)
    builds(ck, GOOD, "aggregate packing and back", lambda a, b: A(a=a, b=b).packed.as_original(), [x, sds((4, 5), bool)])
    rejects(ck, DT, "aggregate packing dtype", lambda a, b: A(a=a, b=b), [sds((4,), np.uint16), sds((4, 5), bool)], W())
    P = cls("VPk", {"p": F.packed_tensor(packed_bits=3, shape=(5,)), "q": F.scalar(dtype=jnp.uint8)})
    builds(ck, GOOD, "packed tensor", lambda a, b: P(p=a, q=b), [sds((4, 3), np.uint8), x])
    rejects(ck, DT, "packed tensor dtype", lambda a, b: P(p=a, q=b), [sds((4, 3), np.uint16), x], W())
    rejects(ck, SH, "packed tensor shape", lambda a, b: P(p=a, q=b), [sds((4, 5), np.uint8), x], W())
    builds(ck, GOOD, "packed tensor set_unpacked", lambda a, b, c: P(p=a, q=b).set_unpacked(p=c), [sds((4, 3), np.uint8), x, sds((4, 5), np.uint8)])
