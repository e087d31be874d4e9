"""C21 indexing and at[].set: element provenance of every field against the batch-axes reference mapping."""
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *

S = np.s_


def forms(b, scalar_fields):
    """index forms for batch shape b: (label, index)"""
    n = b[0]
    out = [("int 0", 0), ("last", n - 1), ("-1", -1), (f"-{n}", -n), ("slice all", S[:]), ("slice 1:", S[1:]), ("slice :-1", S[:-1]), ("step", S[::2]), ("reversed", S[::-1]),
           ("empty slice", S[0:0]), ("int array", np.array([n - 1, 0])), ("dup array", np.array([0, n - 1, 0])), ("neg array", np.array([-1, 0])), ("2d array", np.array([[0, n - 1], [n - 1, 0]])),
           ("mask", np.arange(n) % 2 == 0), ("none mask", np.zeros(n, bool)), ("None", None), ("tuple1", (n - 1,)), ("uint8 array", np.array([n - 1], np.uint8)), ("jnp int", np.int32(n - 1))]
    if len(b) > 1:
        m = b[1]
        out += [("pair", (n - 1, m - 1)), ("neg pair", (-1, 0)), ("slice,int", S[:, m - 1]), ("int,slice", S[0, 1:]), ("arrays", (np.array([0, n - 1]), np.array([m - 1, 0]))),
                ("array,slice", (np.array([n - 1, 0]), slice(0, 1))), ("slice,array", (slice(None), np.array([m - 1]))), ("2d mask", (np.arange(n * m) % 3 == 1).reshape(n, m)), ("None mid", (0, None, 0))]
    if scalar_fields:
        out += [("ellipsis", S[...]), ("ellipsis last", S[..., 0])]
    return out


SETTABLE_DUP = {"dup array"}
SCALAR_ONLY = (kinds.One, kinds.Scal)


def run(ck):
    ck.assume += ["index values are enumerated representatives of each index form; out-of-range writes are dropped as the array library does",
                  "updates whose value does not fit the addressed elements are outside the property"]
    for K in kinds.ALL:
        for b in [(3,), (2, 3), (1,)] + ([(4, 1, 2), (6,)] if ck.thorough else []):
            v = kinds.make(K, b)
            for lab, ix in forms(b, K in SCALAR_ONLY):
                get(ck, K, b, v, lab, ix)
                if lab not in SETTABLE_DUP:
                    put(ck, K, b, v, lab, ix)
            for i in range(-b[0], b[0]):
                dyn(ck, K, b, v, i)
        unfit(ck, K)
        put(ck, K, (), kinds.make(K, ()), "all of a single", S[...])
        v = kinds.make(K, (40,))
        for i in (0, 17, 39, 200):
            dyn(ck, K, (40,), v, i)


def const_cvt(val, dt):
    if isinstance(val, G.Node):
        return G.cvt(val, dt)
    return G.const(np.asarray(val).astype(dt), dt)


def get(ck, K, b, v, lab, ix):
    R = go(ck, "index", f"{K.__name__}{b}[{lab}]", lambda x: x[ix], (v,), ["v"])
    if R is None:
        return
    for p, dt, sh in kinds.leaf_specs(K, batch=b):
        ck.eq("indexing selects the same batch elements in every field", f"{K.__name__}{b}[{lab}].{p}", R.outs[p][0], R.ins["v." + p][ix], where_of(K.__getitem__))
        ck.ob("indexing keeps the dtype", f"{K.__name__}{b}[{lab}].{p}", R.outs[p][1].dtype == dt, R.outs[p][1].dtype, where_of(K.__getitem__))


def put(ck, K, b, v, lab, ix):
    from xtructure.core.xtructure_decorators import indexing
    w = where_of(indexing._Updater.set)
    dst = np.empty(b)[ix].shape
    vals = [("instance", kinds.make(K, dst)), ("python scalar", 1), ("traced scalar", sds((), np.int32))]
    if dst:
        vals.append(("broadcast instance", kinds.make(K, ())))
    for vl, val in vals:
        # an unbatched instance broadcasts only where its own trailing axes line up, i.e. like the array library does
        inst = f"{K.__name__}{b}.at[{lab}].set({vl})"
        if isinstance(val, int):
            R = go(ck, "at.set", inst, lambda x: x.at[ix].set(val), (v,), ["v"])
        else:
            R = go(ck, "at.set", inst, lambda x, y: x.at[ix].set(y), (v, val), ["v", "w"])
        if R is None:
            continue
        compare(ck, K, b, inst, R, ix, val, w)


def compare(ck, K, b, inst, R, ix, val, w):
    for p, dt, sh in kinds.leaf_specs(K, batch=b):
        exp = R.ins["v." + p].copy()
        if isinstance(val, int):
            exp[ix] = G.const(np.asarray(val).astype(dt), dt)
        elif "w." + p in R.ins:
            new = R.ins["w." + p]
            exp[ix] = new[()] if new.ndim == 0 else new
        else:
            exp[ix] = G.cvt(R.ins["w"][()], dt)
        o, s = R.outs[p]
        ck.eq("at.set replaces exactly the addressed elements of every field", f"{inst}.{p}", o, exp, w)
        ck.ob("at.set keeps the dtype", f"{inst}.{p}", s.dtype == dt, s.dtype, w)


def unfit(ck, K):
    """a field that cannot take the update keeps every element, or the call is refused"""
    from xtructure.core.xtructure_decorators import indexing
    w = where_of(indexing._Updater.set)
    for b, ix, lab, val in (((3,), S[0:2], "2 of 3 from 5", sds((5,), np.int32)), ((2, 3), S[:, 0:2], "columns from 7", sds((7,), np.int32)), ((3,), S[np.array([0, 2])], "2 rows from 4x5x6", sds((4, 5, 6), np.float32)),
                            ((3,), S[0, 0, 0, 0, 0, 0], "too many indices", 1), ((3,), S[0:2], "a string", "x"), ((3,), S["key"], "string index", 1)):
        v = kinds.make(K, b)
        inst = f"{K.__name__}{b}.at[{lab}]"
        try:
            R = analyze((lambda x, y: x.at[ix].set(y)) if isinstance(val, jax.ShapeDtypeStruct) else (lambda x: x.at[ix].set(val)), (v, val) if isinstance(val, jax.ShapeDtypeStruct) else (v,), ["v", "w"][:1 + isinstance(val, jax.ShapeDtypeStruct)])
        except TraceError:
            ck.ob("an update a field cannot take is refused or leaves it alone", inst, True)
            continue
        for p, dt, sh in kinds.leaf_specs(K, batch=b):
            try:
                (np.empty(b + sh)[ix])[...] = np.empty(getattr(val, "shape", ())) if not isinstance(val, str) else float(val)
            except (ValueError, IndexError):
                ck.eq("an update a field cannot take is refused or leaves it alone", f"{inst}.{p}", R.outs[p][0], R.ins["v." + p], w)


def dyn(ck, K, b, v, i):
    """traced index"""
    from xtructure.core.xtructure_decorators import indexing
    n = b[0]
    if i < n:
        R = go(ck, "index", f"{K.__name__}{b}[traced {i}]", lambda x, j: x[j], (v, sds((), np.int32)), ["v", "i"], {"i": i})
        if R is not None:
            for p, dt, sh in kinds.leaf_specs(K, batch=b):
                ck.eq("indexing selects the same batch elements in every field", f"{K.__name__}{b}[traced {i}].{p}", R.outs[p][0], R.ins["v." + p][i], where_of(K.__getitem__))
    for vec in (False, True):
        j = np.array([i, i - 1 if 0 < i < n else (i + 1 if i + 1 < n else n + 7)]) if vec else np.array(i)
        val = kinds.make(K, ((2,) if vec else ()) + b[1:])
        inst = f"{K.__name__}{b}.at[traced {j.tolist()}].set"
        R = go(ck, "at.set", inst, lambda x, q, y: x.at[q].set(y), (v, sds(j.shape, np.int32), val), ["v", "i", "w"], {"i": j})
        if R is None:
            continue
        w = where_of(indexing._Updater.set)
        for p, dt, sh in kinds.leaf_specs(K, batch=b):
            exp = R.ins["v." + p].copy()
            for k, q in enumerate(j.reshape(-1)):
                if -n <= q < n:
                    exp[q] = R.ins["w." + p][k] if vec else (R.ins["w." + p][()] if exp.ndim == 1 else R.ins["w." + p])
            ck.eq("at.set replaces exactly the addressed elements of every field", f"{inst}.{p}", R.outs[p][0], exp, w)
