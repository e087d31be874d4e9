"""C20 batch shape / structure kind: the shape queries are evaluated on abstract (shape-only) instances for every
combination of consistent and inconsistent field shapes and compared with the declared rule."""
import itertools
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import StructuredType, xtructure_dataclass, FieldDescriptor as F


@xtructure_dataclass
class T2:
    a: F.tensor(dtype=jnp.uint8, shape=(2,))
    b: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class T22:
    a: F.tensor(dtype=jnp.uint8, shape=(2, 2))


@xtructure_dataclass
class NA:
    s: F.scalar(dtype=T2)
    t: F.tensor(dtype=T2, shape=(2,))
    c: F.scalar(dtype=jnp.int32)


@xtructure_dataclass
class NN:
    n: F.tensor(dtype=NA, shape=(3, 1))
    q: F.tensor(dtype=jnp.float32, shape=(3, 1))


SPEC = {T2: dict(a=("uint8", (2,)), b=("uint8", ())), T22: dict(a=("uint8", (2, 2))),
        NA: dict(s=(T2, ()), t=(T2, (2,)), c=("int32", ())), NN: dict(n=(NA, (3, 1)), q=("float32", (3, 1)))}
SPEC.update(kinds.SPECS)


def build(K, shapes, prefix=""):
    return K(**{n: build(t, shapes, prefix + n + ".") if isinstance(t, type) else sds(shapes[prefix + n], jnp.dtype(t)) for n, (t, sh) in SPEC[K].items()})


def leaves(K, prefix="", pre=()):
    out = []
    for n, (t, sh) in SPEC[K].items():
        out += leaves(t, prefix + n + ".", pre + sh) if isinstance(t, type) else [(prefix + n, pre + sh)]
    return out


def strip(full, intr):
    """leading axes of `full` in front of `intr`, or None"""
    if len(full) < len(intr) or (intr and tuple(full[-len(intr):]) != tuple(intr)):
        return None
    return tuple(full[:len(full) - len(intr)])


def batch_of(K, shapes, prefix=""):
    """the rule of the property: common leading axes, else None"""
    bs = []
    for n, (t, sh) in SPEC[K].items():
        full = batch_of(t, shapes, prefix + n + ".") if isinstance(t, type) else shapes[prefix + n]
        bs.append(None if full is None else strip(full, sh))
    return None if any(b is None or b != bs[0] for b in bs) else bs[0]


def own_shape(x, K, n):
    return x


def run(ck):
    ck.assume += ["structure classes are representative; batch shapes up to rank 3; one or two fields perturbed at a time"]
    classes = [T2, T22, NA, NN] + kinds.ALL
    for K in classes:
        base = leaves(K)
        combos = []
        for b in [(), (1,), (2,), (3,), (2, 2), (0,), (2, 3, 4), (1, 1), (2, 2, 2)]:
            good = {p: b + s for p, s in base}
            combos.append(good)
            perts = []
            for p, s in base:
                alts = [b + (5,) + s, (7,) + b + s, b + s + (2,), b + (1,) + s, (2,) + s, s, (9,) * len(s), tuple(x + 1 for x in b) + s, b[1:] + s,
                        s[1:], b + s[:-1] if s else b + (2,), b[::-1] + s]
                perts += [(p, a) for a in dict.fromkeys(alts) if a != b + s]
            for p, a in perts:
                combos.append({**good, p: a})
            if ck.thorough or len(base) <= 3:
                for (p, a), (q, c) in itertools.combinations(perts[:: 1 if len(base) <= 3 else 5], 2):
                    if p != q:
                        combos.append({**good, p: a, q: c})
        seen = set()
        for sh in combos:
            key = tuple(sorted(sh.items()))
            if key in seen:
                continue
            seen.add(key)
            one(ck, K, sh)


def one(ck, K, shapes):
    want = batch_of(K, shapes)
    inst = f"{K.__name__} {shapes}"
    w = where_of(K.__dict__["shape"])
    ck.configs += 1
    try:
        v = build(K, shapes)
        sh, st, bs = v.shape, v.structured_type, v.batch_shape
    except Exception as e:
        ck.ob("shape queries are defined for every instance", inst, False, f"{type(e).__name__}: {e}", repo_frame(e))
        return
    kind = StructuredType.UNSTRUCTURED if want is None else StructuredType.SINGLE if want == () else StructuredType.BATCHED
    ck.ob("structured_type follows the field shapes", inst, st == kind, f"{st} instead of {kind}", where_of(K.__dict__["structured_type"]))
    ck.ob("shape.batch is the common batch shape", inst, sh.batch == (-1 if want is None else want), f"{sh.batch} instead of {want}", w)
    ck.ob("batch_shape equals shape.batch", inst, bs == sh.batch, bs, where_of(K.__dict__["batch_shape"]))
    # asking again, in another order, on a fresh instance gives the same answers
    v2 = build(K, shapes)
    ck.ob("queries do not depend on the order of asking", inst, (v2.structured_type, v2.batch_shape, v2.shape) == (st, bs, sh) and (v.structured_type, v.shape) == (st, sh), "", w)
    if want is not None:
        for n, (t, s) in SPEC[K].items():
            got = getattr(sh, n)
            if not isinstance(t, type):
                ck.ob("shape reports each field's declared shape", f"{inst}.{n}", got == s, f"{got} instead of {s}", w)
            else:
                ck.ob("shape reports each nested field's declared shape", f"{inst}.{n}", got.batch == s, f"{got} instead of {s}", w)
    for q, f in (("len", len), ("ndim", lambda x: x.ndim)):
        exp = None if want is None else (1 if want == () else want[0]) if q == "len" else len(want)
        wq = where_of(K.__dict__["__len__" if q == "len" else "ndim"])
        try:
            got = f(v)
        except TypeError:
            got = None
        ck.ob(f"{q} agrees with the batch shape", inst, got == exp, f"{got} instead of {exp}", wq)
    dts = v.dtype
    for n, (t, s) in SPEC[K].items():
        if not isinstance(t, type):
            ck.ob("dtype reports each field's dtype", f"{inst}.{n}", getattr(dts, n) == jnp.dtype(t), getattr(dts, n), where_of(K.__dict__["dtype"]))
    # a replaced or rebuilt instance is asked afresh: no stale answer survives
    other = {p: (4,) + s for p, s in leaves(K)}
    n0, (t0, s0) = next(iter(SPEC[K].items()))
    ow = build(K, other)
    r = v.replace(**{n0: getattr(ow, n0)})
    mix = {p: (other if p == n0 or p.startswith(n0 + ".") else shapes)[p] for p in shapes}
    wm = batch_of(K, mix)
    ck.ob("replace does not keep a stale shape", inst, r.shape.batch == (-1 if wm is None else wm), f"{r.shape.batch} instead of {wm}", where_of(K.replace))
    m = jax.tree_util.tree_map(lambda x: sds((4,) + tuple(x.shape), x.dtype), v)
    wb = batch_of(K, {p: (4,) + s for p, s in shapes.items()})
    ck.ob("mapping over the leaves does not keep a stale shape", inst, m.shape.batch == (-1 if wb is None else wb), f"{m.shape.batch} instead of {wb}", w)
