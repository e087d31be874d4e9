"""C25 where / comparison / fill / cast: value-number equality with the per-field elementwise reference."""
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import xtructure_numpy as xnp
from .c23 import where_op

SEL = "where takes each element of each field from the side the condition names"
CMP = "comparison is elementwise on every field"
FIL = "fill gives every field the constant with its own shape and dtype"


def obj(f, *xs):
    xs = np.broadcast_arrays(*xs)
    o = np.empty(xs[0].shape, dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = f(*[x[i] for x in xs])
    return o


def run(ck):
    ck.assume += ["condition, operand and batch shapes are enumerated representatives; operand dtypes cover every kind a field can have (64-bit needs x64 and is left out)"]
    for K in kinds.ALL:
        where(ck, K)
        compare(ck, K)
        fills(ck, K)
    other(ck)


def where(ck, K):
    flat = K in (kinds.One, kinds.Scal)
    for b in [(), (3,), (2, 3)] + ([(17,)] if flat else []):
        conds = [()] + ([c for c in (b, b[-1:], (1,) * len(b), (2, 1)) if c and len(c) <= len(b) and all(p in (1, q) for p, q in zip(c[::-1], b[::-1]))] if flat else [])
        for cs in dict.fromkeys(conds):
            for lab, y in (("instance", kinds.make(K, b)), ("single instance", kinds.make(K, ())), ("int", 5), ("float", 0.5), ("bool", True), ("traced", sds((), np.float32)),
                           *[(f"{np.dtype(t)} instance", jax.tree_util.tree_map(lambda l, t=t: sds(l.shape, t), kinds.make(K, b))) for t in (np.int32, np.float32, np.uint8)],
                           *([("array", sds(b, np.int32))] + ([("row", sds(b[-1:], np.uint16))] if len(b) > 1 else []) if flat and b else [])):
                for cdt in (np.bool_, np.int32) if (lab, b) == ("instance", (3,)) else (np.bool_,):
                    sel(ck, K, b, cs, lab, y, cdt)
        for lab, v in (("python True", True), ("python False", False)):
            R = go(ck, SEL, f"{K.__name__}{b} where({lab})", lambda x, y: xnp.where(v, x, y), (kinds.make(K, b), kinds.make(K, b)), ["x", "y"])
            if R is not None:
                for p, dt, sh in kinds.leaf_specs(K):
                    ck.eq(SEL, f"{K.__name__}{b} where({lab}) {p}", R.outs[p][0], R.ins[("x." if v else "y.") + p], where_op("where"))
        # strict form: identical shapes, structure condition
        C = jax.tree_util.tree_map(lambda l: sds(l.shape, bool), kinds.make(K, b))
        R = go(ck, SEL, f"{K.__name__}{b} where_no_broadcast(structure)", lambda c, x, y: xnp.where_no_broadcast(c, x, y), (C, kinds.make(K, b), kinds.make(K, b)), ["c", "x", "y"])
        if R is not None:
            for p, dt, sh in kinds.leaf_specs(K):
                ck.eq(SEL, f"{K.__name__}{b} where_no_broadcast(structure) {p}", R.outs[p][0], obj(G.ite, R.ins["c." + p], R.ins["x." + p], R.ins["y." + p]), where_op("where_no_broadcast"))
        if flat:
            R = go(ck, SEL, f"{K.__name__}{b} where_no_broadcast", lambda c, x, y: xnp.where_no_broadcast(c, x, y), (sds(b, bool), kinds.make(K, b), kinds.make(K, b)), ["c", "x", "y"])
            if R is not None:
                for p, dt, sh in kinds.leaf_specs(K):
                    ck.eq(SEL, f"{K.__name__}{b} where_no_broadcast {p}", R.outs[p][0], obj(G.ite, R.ins["c"], R.ins["x." + p], R.ins["y." + p]), where_op("where_no_broadcast"))


def sel(ck, K, b, cs, lab, y, cdt):
    x = kinds.make(K, b)
    inst = f"{K.__name__}{b} where(cond{cs} {np.dtype(cdt)}, x, {lab})"
    const = isinstance(y, (int, float))
    if const:
        R = go(ck, SEL, inst, lambda c, x: xnp.where(c, x, y), (sds(cs, cdt), x), ["c", "x"])
    else:
        R = go(ck, SEL, inst, lambda c, x, z: xnp.where(c, x, z), (sds(cs, cdt), x, y), ["c", "x", "y"])
    if R is None:
        return
    w = where_op("where")
    c = obj(lambda n: n if n.dtype == bool else G.cvt(n, G.BOOL), R.ins["c"])
    for p, dt, sh in kinds.leaf_specs(K, batch=b):
        o, s = R.outs[p]
        yv = np.asarray(G.const(y, jnp.asarray(y).dtype), dtype=object) if const else R.ins["y." + p] if "y." + p in R.ins else R.ins["y"]
        ydt = jnp.asarray(y).dtype if const else leaf_dt(y, p) if "y." + p in R.ins else y.dtype
        ck.ob("where promotes like the array library", f"{inst} {p}", s.dtype == jnp.result_type(dt, ydt), s.dtype, w)
        ck.eq(SEL, f"{inst} {p}", o, obj(lambda cc, a, d: G.ite(cc, G.cvt(a, s.dtype), G.cvt(d, s.dtype)), np.broadcast_to(c, o.shape), R.ins["x." + p], np.broadcast_to(yv, o.shape)), w)


def leaf_dt(y, p):
    for k in p.split("."):
        y = getattr(y, k)
    return y.dtype


def compare(ck, K):
    for b in [(), (3,)] + ([(2, 2)] if ck.thorough else []):
        x, y = kinds.make(K, b), kinds.make(K, b)
        for nm, op in (("equal", "eq"), ("not_equal", "ne")):
            for lab, f in ((nm, lambda p, q: getattr(xnp, nm)(p, q)), (nm + " (method)", lambda p, q: getattr(p, nm)(q))):
                R = go(ck, CMP, f"{K.__name__}{b} {lab}", f, (x, y), ["x", "y"])
                if R is not None:
                    for p, dt, sh in kinds.leaf_specs(K):
                        ck.eq(CMP, f"{K.__name__}{b} {lab} {p}", R.outs[p][0], obj(lambda u, v: G.binop(op, u, v), R.ins["x." + p], R.ins["y." + p]), where_op(nm))
        E = "the equality operators combine the comparison over all fields"
        for nm, f in (("__eq__", lambda p, q: p == q), ("__ne__", lambda p, q: p != q)):
            R = go(ck, E, f"{K.__name__}{b} {nm}", f, (x, y), ["x", "y"])
            if R is None:
                continue
            r = G.true()
            for p, dt, sh in kinds.leaf_specs(K):
                for u, v in zip(R.ins["x." + p].reshape(-1), R.ins["y." + p].reshape(-1)):
                    r = G.band(r, G.binop("eq", u, v))
            ck.eq(E, f"{K.__name__}{b} {nm}", R.flat[0], np.asarray(r if nm == "__eq__" else G.bnot(r), dtype=object), where_of(getattr(K, nm)))
            same = go(ck, E, f"{K.__name__}{b} {nm} with itself", lambda p: f(p, p), (x,), ["x"])
            for bad in (kinds.One if K is not kinds.One else kinds.Scal,):
                z = kinds.make(bad, b)
                try:
                    r = K.__dict__[nm](x, z)
                except Exception as e:
                    r = e
                ck.ob("operators decline other classes", f"{K.__name__} {nm} {bad.__name__}", r is NotImplemented, r, where_of(getattr(K, nm)))
        # tolerance comparisons: same program as the array library's, field by field
        for kw in ({}, dict(rtol=0.25, atol=0.5), dict(rtol=0.0, atol=2.0), dict(equal_nan=True)):
            for nm in ("isclose", "allclose"):
                for lab, f in ((nm, lambda p, q: getattr(xnp, nm)(p, q, **kw)), (nm + " (method)", lambda p, q: getattr(p, nm)(q, **kw))):
                    small = nm == "isclose" or K is kinds.One or (K is kinds.Scal and b == ())

                    def interp():
                        I = Interp()
                        I.opaque_calls = () if small else ("isclose",)
                        return I
                    R = go(ck, CMP, f"{K.__name__}{b} {lab} {kw}", f, (x, y), ["x", "y"], interp=interp())
                    if R is None:
                        continue
                    ref = analyze(lambda p, q: jax.tree_util.tree_map(lambda u, v: jnp.isclose(u, v, **kw) if nm == "isclose" else jnp.allclose(u, v, **kw), p, q), (x, y), ["x", "y"], interp=interp())
                    if nm == "isclose":
                        for p, dt, sh in kinds.leaf_specs(K):
                            ck.eq(CMP, f"{K.__name__}{b} {lab} {kw} {p}", R.outs[p][0], ref.outs[p][0], where_op(nm))
                    else:
                        r = G.true()
                        for o, s in ref.outs.values():
                            r = G.band(r, o.reshape(-1)[0] if o.dtype == object else G.const(bool(o), bool))
                        ck.eq(CMP, f"{K.__name__}{b} {lab} {kw}", R.flat[0], np.asarray(r, dtype=object), where_op(nm))


def fills(ck, K):
    for b in [(), (3,), (2, 2), (0,)]:
        x = kinds.make(K, b)
        for lab, f, v in (("full_like(3)", lambda x: xnp.full_like(x, 3), 3), ("full_like(1.0)", lambda x: xnp.full_like(x, 1.0), 1), ("zeros_like", lambda x: xnp.zeros_like(x), 0), ("ones_like", lambda x: xnp.ones_like(x), 1)):
            R = go(ck, FIL, f"{K.__name__}{b} {lab}", f, (x,), ["x"])
            if R is None:
                continue
            for p, dt, sh in kinds.leaf_specs(K, batch=b):
                o, s = R.outs[p]
                ck.ob("fill keeps shape and dtype", f"{K.__name__}{b} {lab} {p}", (tuple(s.shape), s.dtype) == (sh, dt), s, where_op(lab.split("(")[0]))
                ck.eq(FIL, f"{K.__name__}{b} {lab} {p}", o, np.full(sh, v).astype(dt), where_op(lab.split("(")[0]))
        R = go(ck, FIL, f"{K.__name__}{b} full_like(traced)", lambda x, v: xnp.full_like(x, v), (x, sds((), np.int32)), ["x", "v"])
        if R is not None:
            for p, dt, sh in kinds.leaf_specs(K, batch=b):
                ck.eq(FIL, f"{K.__name__}{b} full_like(traced) {p}", R.outs[p][0], np.full(sh, G.cvt(R.ins["v"][()], dt), dtype=object), where_op("full_like"))
        CST = "cast converts every field"
        for t in ("float32", "int32", "uint8", "bool"):
            for lab, f in (("astype", lambda x: xnp.astype(x, jnp.dtype(t))), ("astype (method)", lambda x: x.astype(jnp.dtype(t)))):
                R = go(ck, CST, f"{K.__name__}{b} {lab} {t}", f, (x,), ["x"])
                if R is not None:
                    ref = analyze(lambda x: jax.tree_util.tree_map(lambda l: jnp.astype(l, jnp.dtype(t)), x), (x,), ["x"])
                    for p, dt, sh in kinds.leaf_specs(K, batch=b):
                        ck.ob("cast gives the requested dtype", f"{K.__name__}{b} {lab} {t} {p}", R.outs[p][1].dtype == jnp.dtype(t), R.outs[p][1].dtype, where_op("astype"))
                        ck.eq(CST, f"{K.__name__}{b} {lab} {t} {p}", R.outs[p][0], ref.outs[p][0], where_op("astype"))


def other(ck):
    for K in kinds.ALL:
        x = kinds.make(K, (2,))
        f32 = jax.tree_util.tree_map(lambda l: sds(l.shape, np.float32), x)
        for lab, y, dt_of in (("self", x, lambda d: d), ("float structure", f32, lambda d: jnp.result_type(d, jnp.float32))):
            try:
                r = xnp.result_type(x, y)
                got = jax.tree_util.tree_leaves(r)
            except Exception as e:
                ck.ob("result_type promotes every field", f"{K.__name__} {lab}", False, e, repo_frame(e))
                continue
            exp = [dt_of(dt) for _, dt, _ in kinds.leaf_specs(K)]
            ck.ob("result_type promotes every field", f"{K.__name__} {lab}", got == exp, f"{got} instead of {exp}", where_op("result_type"))
        for to in ("float32", "int32", "uint8", "uint32", "bool"):
            for casting in ("safe", "unsafe", "same_kind", "no", "equiv"):
                exp = all(bool(jnp.can_cast(dt, to, casting=casting)) for _, dt, _ in kinds.leaf_specs(K))
                try:
                    got = bool(xnp.can_cast(x, jnp.dtype(to), casting=casting))
                except Exception as e:
                    ck.ob("can_cast holds iff every field can be cast", f"{K.__name__} {to} {casting}", False, e, repo_frame(e))
                    continue
                ck.ob("can_cast holds iff every field can be cast", f"{K.__name__} {to} {casting}", got == exp, f"{got} instead of {exp}", where_op("can_cast"))
    a, o = kinds.make(kinds.Scal, (3,)), kinds.make(kinds.Nest, (3,))
    c = sds((3,), bool)
    for lab, f, args, nm in (("where other class", lambda c, x, y: xnp.where(c, x, y), (c, a, o), "where"), ("where condition too long", lambda c, x, y: xnp.where(c, x, y), (sds((4,), bool), a, a), "where"),
                             ("where size=", lambda c, x, y: xnp.where(c, x, y, size=2), (c, a, a), "where"), ("where fill_value=", lambda c, x, y: xnp.where(c, x, y, fill_value=0), (c, a, a), "where"),
                             ("where without y", lambda c, x: xnp.where(c, x), (c, a), "where"), ("where array,structure", lambda c, x, y: xnp.where(c, x, y), (c, c, a), "where"),
                             ("where_no_broadcast other class", lambda c, x, y: xnp.where_no_broadcast(c, x, y), (c, a, o), "where_no_broadcast"),
                             ("where_no_broadcast scalar condition", lambda c, x, y: xnp.where_no_broadcast(c, x, y), (sds((), bool), a, a), "where_no_broadcast"),
                             ("where_no_broadcast shapes differ", lambda c, x, y: xnp.where_no_broadcast(c, x, y), (c, a, kinds.make(kinds.Scal, (1,))), "where_no_broadcast"),
                             ("full_like dtype", lambda x: xnp.full_like(x, 0, dtype=np.int32), (a,), "full_like"), ("zeros_like dtype", lambda x: xnp.zeros_like(x, dtype=np.int32), (a,), "zeros_like"),
                             ("ones_like shape", lambda x: xnp.ones_like(x, shape=(2,)), (a,), "ones_like")):
        rejects(ck, "ill-formed selections and fills are rejected", lab, f, args, where_op(nm))
