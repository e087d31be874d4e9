"""C22 conditional updates: conditions and values symbolic, indices partitioned; every output element is a decision diagram over the conditions."""
import itertools
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import xtructure_numpy as xnp
from xtructure.core.xtructure_decorators import indexing

RULE = "each addressed element takes the value of the first entry whose condition holds; everything else stays"


def run(ck):
    ck.assume += ["array lengths, number of updates and index tuples are enumerated (conditions, old and new values are universally quantified); negative one-dimensional indices count as out of range",
                  "clipped out-of-range multi-dimensional indices and rejected shapes are outside the property"]
    small = [()] + list(itertools.product((-1, 0, 1, 2), repeat=1)) + list(itertools.product((-1, 0, 1, 2), repeat=2)) + list(itertools.product((0, 1, 2), repeat=3))
    if ck.thorough:
        small += list(itertools.product((-5, 0, 1, 9), repeat=4))
    for ix in small:
        for api in ("update_on_condition", "set_as_condition"):
            one(ck, kinds.One, (2,), np.array(ix, np.int32), api, "instance")
    big = [(0, 0, 0, 0), (3, 1, 3, 1), (4, 3, 2, 1), (1, 4, 1, 5, 1), (0, -1, 5, 5, 0, 0, 4), (2, 2, 6, 2, -7, 0, 2)]
    for ix in big:
        for K in kinds.ALL:
            for api in ("update_on_condition", "set_as_condition"):
                for val in ("instance", "single", "scalar", "python"):
                    if len(ix) <= 5 or K in (kinds.One, kinds.Nest):
                        one(ck, K, (5,), np.array(ix, np.int32), api, val)
    for dt in (np.uint32, np.uint8, np.int16, np.uint16, np.int8):
        sgn = [(4, -1, 4, 0), (-5, 2, -7, 2)] if np.issubdtype(dt, np.signedinteger) else []
        for ix in ((4, 0, 4, 5), (5, 5, 1, 1), *sgn):
            one(ck, kinds.Scal, (5,), np.array(ix, dt), "set_as_condition", "instance")
            one(ck, kinds.Scal, (5,), np.array(ix, dt), "update_on_condition", "scalar")
        top = np.iinfo(dt).max
        for n in {128, 256, 300, 600}:
            if top < 70000:
                one(ck, kinds.One, (n,), np.array([3, min(n - 1, top), 3] + ([-1, -2] if sgn else [0, 0]), dt), "set_as_condition", "instance")
    for dt in (np.int16, np.uint16, np.uint32, np.int32):
        one(ck, kinds.One, (70000,), np.array([3, min(69999, np.iinfo(dt).max), 3, 20000], dt), "set_as_condition", "instance")
    for K in kinds.ALL:
        for api in ("update_on_condition", "set_as_condition"):
            for val in ("instance", "scalar"):
                for ix in (0, 3, 4, 7, -1):
                    one(ck, K, (5,), np.array(ix, np.int32), api, val)
                one(ck, K, (5,), np.array([[4, 0], [0, 9]], np.int32), api, val)
                one(ck, K, (5,), np.array([[1, 1, 1]], np.int32), api, val)
                tup(ck, K, (2, 3), (np.array([1, 0, 1, 1]), np.array([2, 0, 2, 1])), api, val)
                tup(ck, K, (2, 3), (np.array([1, 1]), np.array([0, 2])), api, val)
                tup(ck, K, (3, 2, 2), (np.array([2, 0, 2]), np.array([1, 1, 1])), api, val)
                tup(ck, K, (4,), (np.array([3, 3, 0]),), api, val)
    for K in (kinds.Scal, kinds.Nest):
        one(ck, K, (5, 2), np.array([4, 1, 4], np.int32), "update_on_condition", "instance")
        one(ck, K, (5, 2), np.array([4, 1, 4], np.int32), "set_as_condition", "instance")
        one(ck, K, (300,), np.array([299, 0, 299, 300], np.int32), "set_as_condition", "instance")
        tup(ck, K, (2, 3), (np.array([[1, 1], [0, 1]]), np.array([[2, 2], [0, 2]])), "set_as_condition", "instance")
        for sl in (slice(1, 4), slice(None), slice(None, None, -2), slice(5, None)):
            one(ck, K, (5,), np.arange(5)[sl], "set_as_condition", "instance", sl)
            one(ck, K, (5,), np.arange(5)[sl], "set_as_condition", "scalar", sl)
    for lab, f, a in (("condition shape", lambda x, i, c, y: xnp.update_on_condition(x, i, c, y), (sds((3,), np.int32), sds((2,), bool))),
                      ("float index", lambda x, i, c, y: xnp.update_on_condition(x, i, c, y), (sds((3,), np.float32), sds((3,), bool)))):
        rejects(ck, "ill-formed conditional updates are rejected", lab, f, (kinds.make(kinds.Scal, (4,)), *a, kinds.make(kinds.Scal, (3,))), where_of(xnp.update_on_condition))


def where(api):
    from xtructure.core.xtructure_numpy.dataclass_ops import logical_ops
    return where_of(indexing._Updater.set_as_condition if api == "set_as_condition" else logical_ops.update_on_condition)


def call(api, x, i, c, y):
    return x.at[i].set_as_condition(c, y) if api == "set_as_condition" else xnp.update_on_condition(x, i, c, y)


def value(K, shape, val):
    return {"instance": lambda: kinds.make(K, shape), "single": lambda: kinds.make(K, ()), "scalar": lambda: sds((), np.int32), "python": lambda: 1}[val]()


def one(ck, K, b, ix, api, val, raw=None):
    y = value(K, ix.shape + b[1:], val)
    inst = f"{K.__name__}{b} {api} at {ix.dtype}{ix.tolist() if raw is None else raw} <- {val}"
    args, names, fixed = [kinds.make(K, b), sds(ix.shape, bool)], ["x", "c"], {}
    if raw is None:
        args.append(sds(ix.shape, ix.dtype)); names.append("i"); fixed["i"] = ix
    if not isinstance(y, int):
        args.append(y); names.append("w")

    def f(x, c, *r):
        return call(api, x, r[0] if raw is None else raw, c, y if isinstance(y, int) else r[-1])
    R = go(ck, RULE, inst, f, tuple(args), names, fixed)
    if R is None:
        return
    flat = ix.reshape(-1)
    verdict(ck, K, b, inst, R, api, y, [(int(q),) if 0 <= q < b[0] else None for q in flat], ix.shape, 1)


def tup(ck, K, b, ixs, api, val):
    y = value(K, ixs[0].shape + b[len(ixs):], val)
    inst = f"{K.__name__}{b} {api} at {tuple(i.tolist() for i in ixs)} <- {val}"
    args, names = [kinds.make(K, b), sds(ixs[0].shape, bool), *[sds(i.shape, np.int32) for i in ixs], y], ["x", "c"] + [f"i{k}" for k in range(len(ixs))] + ["w"]
    R = go(ck, RULE, inst, lambda x, c, *r: call(api, x, tuple(r[:-1]), c, r[-1]), tuple(args), names, {f"i{k}": i for k, i in enumerate(ixs)})
    if R is None:
        return
    verdict(ck, K, b, inst, R, api, y, [tuple(int(q) for q in t) for t in zip(*[i.reshape(-1) for i in ixs])], ixs[0].shape, len(ixs))


def verdict(ck, K, b, inst, R, api, y, targets, ishape, nb):
    c = R.ins["c"].reshape(-1)
    n = len(targets)
    for p, dt, sh in kinds.leaf_specs(K, batch=b):
        exp = R.ins["x." + p].copy()
        item = sh[nb:]
        if isinstance(y, int):
            new = np.broadcast_to(np.asarray(G.const(np.asarray(y).astype(dt), dt), dtype=object), (n,) + item)
        elif "w." + p in R.ins:
            w = R.ins["w." + p]
            new = w.reshape((n,) + item) if w.shape == tuple(ishape) + item else np.broadcast_to(w, (n,) + item)
        else:
            new = np.broadcast_to(np.asarray(G.cvt(R.ins["w"][()], dt), dtype=object), (n,) + item)
        for k in range(n - 1, -1, -1):
            if targets[k] is None:
                continue
            if item == ():
                exp[targets[k]] = G.ite(c[k], new[k], exp[targets[k]])
            else:
                for q in np.ndindex(*item):
                    exp[targets[k] + q] = G.ite(c[k], new[k][q], exp[targets[k] + q])
        o, s = R.outs[p]
        ck.eq(RULE, f"{inst} {p}", o, exp, where(api))
        ck.ob("conditional updates keep the dtype", f"{inst} {p}", s.dtype == dt, s.dtype, where(api))
