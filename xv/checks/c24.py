"""C24 joining and padding: element provenance against an order-of-arguments / offset reference, fills by constant propagation."""
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import xtructure_numpy as xnp
from .c19 import sentinel
from .c23 import where_op


def run(ck):
    ck.assume += ["axes are counted from the front; batch shapes, pad widths and input counts are enumerated representatives"]
    for K in kinds.ALL:
        join(ck, K)
        pads(ck, K)
    named_stacks(ck)
    negative(ck)


def many(ck, K, rule, lab, f, shapes, ref, opname):
    vs = [kinds.make(K, b) for b in shapes]
    inst = f"{K.__name__} {lab} {shapes}"
    R = go(ck, rule, inst, f, vs, [f"v{i}" for i in range(len(vs))])
    if R is None:
        return
    for p, dt, sh in kinds.leaf_specs(K):
        xs = [R.ins[f"v{i}.{p}"] for i in range(len(vs))]
        if p not in R.outs:
            ck.ob(rule, f"{inst} {p}", False, "field missing", where_op(opname))
            continue
        ck.eq(rule, f"{inst} {p}", R.outs[p][0], ref(xs), where_op(opname))
        ck.ob(rule + " (dtype)", f"{inst} {p}", R.outs[p][1].dtype == dt, R.outs[p][1].dtype, where_op(opname))


CAT = "concatenation places the inputs in argument order along the axis"
STK = "stacking places the inputs in argument order along a new axis"


def join(ck, K):
    groups = [([(2,), (3,)], 0), ([(2,), (2,)], 0), ([(1,), (3,), (2,)], 0), ([(2,)], 0), ([(0,), (2,)], 0), ([(2, 3), (1, 3)], 0), ([(2, 3), (2, 1), (2, 2)], 1), ([(2, 2), (2, 2)], 0), ([(2, 2), (2, 2)], 1),
              ([(2, 1, 2), (2, 2, 2)], 1), ([(1,)] * 5, 0), ([(9,), (8,)], 0)]
    for shapes, ax in groups:
        for nm in ("concat", "concatenate"):
            many(ck, K, CAT, f"{nm} axis={ax}", lambda *x, nm=nm: getattr(xnp, nm)(list(x), axis=ax), shapes, lambda xs: np.concatenate(xs, axis=ax), nm)
        if ax == 0:
            many(ck, K, CAT, "concatenate default", lambda *x: xnp.concatenate(x), shapes, lambda xs: np.concatenate(xs, axis=0), "concatenate")
            many(ck, K, CAT, "concat default", lambda *x: xnp.concat(x), shapes, lambda xs: np.concatenate(xs, axis=0), "concat")
            many(ck, K, CAT, "concatenate generator", lambda *x: xnp.concatenate(y for y in x), shapes, lambda xs: np.concatenate(xs, axis=0), "concatenate")
        # flattening form
        many(ck, K, CAT, "concatenate axis=None", lambda *x: xnp.concatenate(list(x), axis=None), shapes, lambda xs: np.concatenate(xs, axis=None), "concatenate")
        many(ck, K, CAT, "concat axis=None", lambda *x: xnp.concat(list(x), axis=None), shapes, lambda xs: np.concatenate(xs, axis=None), "concat")
    if K in (kinds.One, kinds.Scal):
        many(ck, K, CAT, "concat axis=-1", lambda *x: xnp.concat(list(x), axis=-1), [(2, 1), (2, 3)], lambda xs: np.concatenate(xs, axis=-1), "concat")
        many(ck, K, STK, "stack axis=-1", lambda *x: xnp.stack(list(x), axis=-1), [(2,), (2,)], lambda xs: np.stack(xs, axis=-1), "stack")
        for ss, axes in (([(), ()], (-1,)), ([()] * 3, (-1,)), ([(2,)] * 3, (-1, -2)), ([(2, 3)] * 2, (-1, -2, -3))):
            for ax in axes:
                many(ck, K, STK, f"stack axis={ax}", lambda *x, ax=ax: xnp.stack(list(x), axis=ax), ss, lambda xs, ax=ax: np.stack(xs, axis=ax), "stack")
                if ss[0] and -ax <= len(ss[0]):
                    many(ck, K, CAT, f"concat axis={ax}", lambda *x, ax=ax: xnp.concat(list(x), axis=ax), ss, lambda xs, ax=ax: np.concatenate(xs, axis=ax), "concat")
                    many(ck, K, CAT, f"concatenate axis={ax}", lambda *x, ax=ax: xnp.concatenate(list(x), axis=ax), ss, lambda xs, ax=ax: np.concatenate(xs, axis=ax), "concatenate")
    for n in (2, 3, 5):
        many(ck, K, CAT, f"concat singles n={n}", lambda *x: xnp.concat(list(x)), [()] * n, lambda xs: np.stack(xs, axis=0), "concat")
        many(ck, K, CAT, f"concatenate singles n={n}", lambda *x: xnp.concatenate(list(x)), [()] * n, lambda xs: np.stack(xs, axis=0), "concatenate")
    for shapes, axes in (([()] * 2, (0,)), ([()] * 4, (0,)), ([()], (0,)), ([(3,)], (0, 1)), ([(3,)] * 2, (0, 1)), ([(2, 3)] * 3, (0, 1, 2)), ([(1,)] * 2, (0, 1))):
        for ax in axes:
            many(ck, K, STK, f"stack axis={ax}", lambda *x: xnp.stack(list(x), axis=ax), shapes, lambda xs: np.stack(xs, axis=ax), "stack")
        many(ck, K, STK, "stack default", lambda *x: xnp.stack(x), shapes, lambda xs: np.stack(xs, axis=0), "stack")


def named_stacks(ck):
    for K in kinds.ALL:
        shapes = [[(2,), (2,)], [(2, 3), (2, 3), (2, 3)], [(3,)], [(1, 2), (1, 2)]] + ([[(), ()]] if K in (kinds.One, kinds.Scal) else [])
        for ss in shapes:
            for nm, f in (("vstack", np.vstack), ("hstack", np.hstack), ("dstack", np.dstack), ("column_stack", np.column_stack)):
                many(ck, K, "named stacking joins every field like the array library", nm, lambda *x, nm=nm: getattr(xnp, nm)(list(x)), ss, lambda xs, f=f: f(xs), nm)
    for K in (kinds.One, kinds.Scal):
        for ss, nest in (([(2,), (3,)], lambda a: [a[0], a[1]]), ([(2, 2)] * 4, lambda a: [[a[0], a[1]], [a[2], a[3]]]), ([(1, 2), (1, 1), (2, 3)], lambda a: [[a[0], a[1]], [a[2]]]), ([(2, 2), (2, 1), (1, 2), (1, 1)], lambda a: [[a[0], a[1]], [a[2], a[3]]]), ([(3,)], lambda a: [a[0]])):
            many(ck, K, "block joins every field like the array library", "block", lambda *x, nest=nest: xnp.block(nest(x)), ss, lambda xs, nest=nest: npblock(nest(xs)), "block")


def npblock(x):
    if isinstance(x, list):
        depth = 2 if isinstance(x[0], list) else 1
        if depth == 1:
            return np.concatenate([np.atleast_1d(y) for y in x], axis=-1)
        return np.concatenate([np.concatenate([np.atleast_2d(z) for z in y], axis=-1) for y in x], axis=-2)
    return x


PAD = "padding keeps the elements at the offset and fills new positions with the structure's default"
PADV = "padding with an explicit value or mode treats every field like the array library"


def pads(ck, K):
    cases = [((3,), 1), ((3,), (0, 2)), ((3,), (2, 0)), ((3,), ((1, 2),)), ((3,), (1,)), ((3,), 0), ((3,), [0, 4]), ((0,), (1, 2)), ((2, 3), 1), ((2, 3), ((1, 0), (0, 2))), ((2, 3), (1, 2)), ((2, 3), [(0, 0), (3, 1)]),
             ((2, 1, 2), ((0, 1), (1, 0), (2, 2))), ((2, 1, 2), (1, 0, 2)), ((12,), (5, 9))]
    for b, pw in cases:
        norm = ([(pw, pw)] * len(b) if isinstance(pw, int) else [tuple(x) for x in pw] if isinstance(pw[0], (tuple, list)) else
                [tuple(pw)] + [(0, 0)] * (len(b) - 1) if len(pw) == 2 else [(x, x) for x in pw])
        v = kinds.make(K, b)
        for lab, f in (("pad", lambda x: xnp.pad(x, pw)), ("pad (method)", lambda x: x.pad(pw)), ("pad mode=constant", lambda x: xnp.pad(x, pw, mode="constant"))):
            default_fill(ck, K, f"{K.__name__}{b} {lab}({pw})", f, v, b, norm)
        for lab, f, fill in (("constant_values=0", lambda x: xnp.pad(x, pw, constant_values=0), 0), ("constant_values=1", lambda x: xnp.pad(x, pw, mode="constant", constant_values=1), 1), ("method constant_values=1", lambda x: x.pad(pw, constant_values=1), 1)):
            explicit(ck, K, f"{K.__name__}{b} pad({pw},{lab})", f, v, norm, fill)
        if b[0] > 1 and all(x > 1 or (p, q) == (0, 0) for x, (p, q) in zip(b, norm)) and all(max(p, q) < x for x, (p, q) in zip(b, norm)):
            for mode in ("edge", "reflect", "wrap", "symmetric"):
                R = go(ck, PADV, f"{K.__name__}{b} pad({pw},{mode})", lambda x: xnp.pad(x, pw, mode=mode), (v,), ["v"])
                if R is not None:
                    for p, dt, sh in kinds.leaf_specs(K, batch=b):
                        x = R.ins["v." + p]
                        ix = np.pad(np.arange(x.size).reshape(x.shape), norm + [(0, 0)] * (x.ndim - len(b)), mode=mode)
                        ck.eq(PADV, f"{K.__name__}{b} pad({pw},{mode}) {p}", R.outs[p][0], x.reshape(-1)[ix], where_op("pad"))
    s = kinds.make(K, ())
    for pw, norm in ((2, (2, 2)), ((0, 3), (0, 3)), ((1, 2), (1, 2)), (((2, 1),), (2, 1))):
        default_fill(ck, K, f"{K.__name__}() pad({pw})", lambda x: xnp.pad(x, pw), s, (1,), [norm], single=True)
        explicit(ck, K, f"{K.__name__}() pad({pw}, constant_values=1)", lambda x: xnp.pad(x, pw, constant_values=1), s, [norm], 1, single=True)


def default_fill(ck, K, inst, f, v, b, norm, single=False):
    R = go(ck, PAD, inst, f, (v,), ["v"])
    if R is None:
        return
    for p, dt, sh in kinds.leaf_specs(K):
        x = R.ins["v." + p]
        if single:
            x = x[None]
        fill = 0 if (K, p) == (kinds.Packed, "p") else sentinel(dt)
        place(ck, PAD, f"{inst} {p}", R, p, dt, x, norm, fill)


def explicit(ck, K, inst, f, v, norm, fill, single=False):
    R = go(ck, PADV, inst, f, (v,), ["v"])
    if R is None:
        return
    for p, dt, sh in kinds.leaf_specs(K):
        x = R.ins["v." + p]
        place(ck, PADV, f"{inst} {p}", R, p, dt, x[None] if single else x, norm, fill)


def place(ck, rule, inst, R, p, dt, x, norm, fill):
    pw = list(norm) + [(0, 0)] * (x.ndim - len(norm))
    exp = np.full([s + a + c for s, (a, c) in zip(x.shape, pw)], G.const(np.asarray(fill).astype(dt), dt), dtype=object)
    exp[tuple(slice(a, a + s) for s, (a, c) in zip(x.shape, pw))] = x[()] if x.ndim == 0 else x
    if p not in R.outs:
        return ck.ob(rule, inst, False, "field missing", where_op("pad"))
    ck.eq(rule, inst, R.outs[p][0], exp, where_op("pad"))
    ck.ob("padding keeps the dtype", inst, R.outs[p][1].dtype == dt, R.outs[p][1].dtype, where_op("pad"))


def negative(ck):
    for K, L in ((kinds.Scal, kinds.One), (kinds.Nest, kinds.Scal)):
        a, b, o = kinds.make(K, (2,)), kinds.make(K, (2, 3)), kinds.make(L, (2,))
        s = kinds.make(K, ())
        R = "ill-formed joins and pads are rejected"
        for lab, f, args, nm in (("concat different classes", lambda x, y: xnp.concat([x, y]), (a, o), "concat"), ("concat different ranks", lambda x, y: xnp.concat([x, y]), (a, b), "concat"),
                                 ("concat single with batched", lambda x, y: xnp.concat([x, y]), (a, s), "concat"), ("concat bad axis", lambda x, y: xnp.concat([x, y], axis=1), (a, a), "concat"),
                                 ("concat other axis differs", lambda x, y: xnp.concat([x, y], axis=0), (b, kinds.make(K, (2, 2))), "concat"),
                                 ("concat structure with array", lambda x, y: xnp.concat([x, y]), (a, sds((2,), np.float32)), "concat"), ("stack structure with array", lambda x, y: xnp.stack([x, y]), (a, sds((2,), np.float32)), "stack"),
                                 ("stack different classes", lambda x, y: xnp.stack([x, y]), (a, o), "stack"), ("stack different batch shapes", lambda x, y: xnp.stack([x, y]), (a, kinds.make(K, (3,))), "stack"),
                                 ("concat nothing", lambda: xnp.concat([]), (), "concat"), ("stack nothing", lambda: xnp.stack([]), (), "stack"),
                                 ("concatenate with dtype", lambda x: xnp.concatenate([x, x], dtype=np.float32), (a,), "concatenate"), ("stack with dtype", lambda x: xnp.stack([x, x], dtype=np.float32), (a,), "stack"),
                                 ("pad negative", lambda x: xnp.pad(x, (-1, 0)), (a,), "pad"), ("pad wrong rank", lambda x: xnp.pad(x, ((1, 1),)), (b,), "pad"), ("pad wrong rank 3", lambda x: xnp.pad(x, (1, 1, 1)), (b,), "pad")):
            rejects(ck, R, f"{K.__name__} {lab}", f, args, where_op(nm))
