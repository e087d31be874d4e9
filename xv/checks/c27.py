"""C27 structures are transparent pytrees: flattening, rebuilding and replacing carry opaque leaves to the places they came from."""
import copy, pickle, itertools
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import xtructure_dataclass, base_dataclass, FieldDescriptor as F, HashTable, BGPQ, Queue, Stack
from xtructure.core import dataclass as dcm

ORDER = "flattening lists the leaves in declared field order"
SAME = "both flattening forms list the same leaves, named after their fields"
BACK = "rebuilding gives the same fields in the same places, of the same class, with the same static values"
CACHE = "no cached state is carried: neither as a leaf, nor in the tree structure, nor into the rebuilt object"
STAT = "static fields are no leaves and take part in the identity of the tree"
REPL = "replace changes the named field only"
TUP = "to_tuple / from_tuple keep every field in its place"
XFORM = "a transformation (jit, vmap, scan, cond) over a structure returns every field from its own place"
REJ = "misuse is rejected"
EVAL = "a well-formed structure can be flattened and rebuilt"
TU = jax.tree_util


def run(ck):
    ck.assume += ["structure types are representative; field contents are opaque symbols (the flattening code cannot inspect them), so each result holds for every content",
                  "attributes outside the declared fields that a program attaches to an instance by hand are not considered"]
    for K, names, mk in declared(ck):
        structure(ck, K, names, mk)
    static(ck)
    containers(ck)
    xforms(ck)
    negative(ck)


class Sym:
    """opaque symbol: a leaf no code can look into, apart from its shape and type"""
    def __init__(self, name, shape=(), dtype=np.uint32):
        self.name, self.shape, self.dtype = name, tuple(shape), np.dtype(dtype)
        self.ndim = len(self.shape)

    def __repr__(self):
        return f"<{self.name}>"

    def __reduce__(self):
        return (sym, (self.name, self.shape, self.dtype.str if self.dtype.kind != "V" else self.dtype.name))


POOL = {}


def sym(name, shape=(), dtype="uint32"):
    return POOL.setdefault((name, tuple(shape), str(dtype)), Sym(name, shape, np.dtype(dtype)))


def filled(K, batch, pre="v"):
    kw = {}
    for n, (t, s) in kinds.SPECS[K].items():
        kw[n] = filled(t, tuple(batch) + s, f"{pre}.{n}") if isinstance(t, type) else Sym(f"{pre}.{n}", tuple(batch) + s, jnp.dtype(t))
    return K(**kw)


def declared(ck):
    """(class, declared field names, maker)"""
    for K in kinds.ALL:
        yield K, list(kinds.SPECS[K]), lambda b, K=K: filled(K, b)
    # every order of field names: declared order, not alphabetical
    for perm in itertools.permutations("cab"):
        K = make_cls("Perm_" + "".join(perm), {n: F.scalar(dtype=jnp.uint32) for n in perm})
        yield K, list(perm), lambda b, K=K, perm=perm: K(**{n: Sym(n, b) for n in perm})
    P = base_dataclass(type("Plain3", (), {"__annotations__": {n: int for n in "zyx"}, "__module__": __name__}))
    for sub in itertools.product(("leaf", "none", "dict", "empty"), repeat=3):
        nested(ck, f"Plain3 {sub}", P(**{n: content(k, n) for n, k in zip("zyx", sub)}), P, list("zyx"), list("zyx"), where_of(dcm.register_dataclass_type_with_jax_tree_util))
    many = [f"f{(i * 5) % 12}" for i in range(12)]
    K = make_cls("ManyFields", {n: F.scalar(dtype=jnp.uint32) for n in many})
    yield K, many, lambda b, K=K: K(**{n: Sym(n, b) for n in many})
    V = make_cls("Validated", {n: F.scalar(dtype=jnp.uint32) for n in "ba"}, validate=True)
    yield V, ["b", "a"], lambda b, V=V: V(b=jnp.zeros(b, jnp.uint32), a=jnp.ones(b, jnp.uint32))
    A = make_cls("Agg", {"q": F.scalar(dtype=jnp.uint8, bits=3, default=0), "p": F.tensor(dtype=jnp.bool_, shape=(5,), bits=1, fill_value=False)}, aggregate_bitpack=True)
    yield A, ["q", "p"], lambda b, A=A: A(q=Sym("q", b, np.uint8), p=Sym("p", tuple(b) + (5,), bool))
    yield A.Packed, ["words", "tail"], lambda b, A=A: A.Packed(words=Sym("w", tuple(b) + (0,)), tail=Sym("t", tuple(b) + (1,), np.uint8))
    B = base_dataclass(type("PlainDc", (), {"__annotations__": {"z": int, "y": int, "x": int}, "__module__": __name__}))
    yield B, ["z", "y", "x"], lambda b: B(z=Sym("z"), y=Sym("y"), x=Sym("x"))
    FZ = base_dataclass(type("FrozenDc", (), {"__annotations__": {"z": int, "y": int}, "__module__": __name__}), frozen=True)
    yield FZ, ["z", "y"], lambda b: FZ(z=Sym("z"), y=Sym("y"))


def make_cls(name, fields, **kw):
    K = type(name, (), {"__annotations__": fields, "__module__": __name__})
    K = xtructure_dataclass(**kw)(K) if kw else xtructure_dataclass(K)
    globals()[name] = K
    return K


def flatleaves(v, names):
    out = []
    for n in names:
        x = v.__dict__[n]
        sub = list(getattr(x, "__dataclass_fields__", ())) if hasattr(x, "__dataclass_fields__") else None
        out += [(n, x)] if sub is None else [(n + "." + p, l) for p, l in flatleaves(x, sub)]
    return out


def ident(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def touch(v):
    """read every inspecting property, so that any cache is filled"""
    for a in ("shape", "dtype", "structured_type", "batch_shape", "ndim"):
        try:
            getattr(v, a, None)
        except TypeError:
            pass
    try:
        len(v) if hasattr(v, "__len__") else None
    except TypeError:
        pass
    for x in list(v.__dict__.values()):
        if hasattr(x, "__dataclass_fields__"):
            touch(x)
    return v


def safe(ck, rule, inst, w):
    class S:
        def __enter__(self):
            return self

        def __exit__(self, t, e, tb):
            if e is None:
                return False
            if not isinstance(e, Exception):
                return False
            f = repo_frame(e)
            if f[0] == "?" and not inst:
                return False
            ck.ob(rule, inst, False, f"{t.__name__}: {e}", f if f[0] != "?" else w)
            return True
    return S()


def structure(ck, K, names, mk):
    w = where_of(dcm.register_dataclass_type_with_jax_tree_util)
    wu = where_of(dcm._dataclass_unflatten) if hasattr(dcm, "_dataclass_unflatten") else w
    for b in ((), (3,), (2, 2)):
        inst = f"{K.__name__}{b}"
        with safe(ck, EVAL, inst, w):
            v = mk(b)
            exp = flatleaves(v, names)
            leaves, td = TU.tree_flatten(v)
            ck.ob(ORDER, inst, ident(leaves, [l for _, l in exp]), f"{leaves} instead of {exp}", w)
            paths, td2 = TU.tree_flatten_with_path(v)
            ck.ob(SAME, inst, ident([l for _, l in paths], leaves) and [pathstr(p) for p, _ in paths] == [n for n, _ in exp] and td2 == td,
                  f"{[(pathstr(p), l) for p, l in paths]} against {exp}", w)
            ck.ob(SAME, inst + " key kinds", all(isinstance(k, TU.GetAttrKey) for p, _ in paths for k in p), "", w)
            for how, obj in (("fresh", v), ("inspected", touch(mk(b)))):
                exp = flatleaves(obj, names)
                leaves, tdo = TU.tree_flatten(obj)
                ck.ob(CACHE, f"{inst} {how} leaves", ident(leaves, [l for _, l in exp]), leaves, w)
                ck.ob(CACHE, f"{inst} {how} tree", tdo == td and hash(tdo) == hash(td), f"{tdo} against {td}", w)
                r = TU.tree_unflatten(tdo, leaves)
                check_same(ck, BACK, f"{inst} {how} rebuilt", r, K, names, [l for _, l in exp], wu)
                # other contents and shapes in the same tree
                other = [Sym(f"o{i}", (7,) + tuple(getattr(l, "shape", ()))) for i, l in enumerate(leaves)]
                r = TU.tree_unflatten(tdo, other)
                check_same(ck, BACK, f"{inst} {how} rebuilt with other leaves", r, K, names, other, wu)
                if hasattr(K, "default_shape") and how == "inspected" and K.__name__ != "Validated":
                    ck.ob(CACHE, f"{inst} {how} shape of the rebuilt object", r.shape == fresh_like(K, r).shape, f"{r.shape}", wu)
                ph = TU.tree_unflatten(tdo, [None] * len(leaves))
                ck.ob(BACK, f"{inst} {how} placeholders", type(ph) is K, "", wu)
                for form, f in (("copy", copy.copy), ("tree_map", lambda o: TU.tree_map(lambda x: x, o))):
                    c = f(obj)
                    check_same(ck, BACK, f"{inst} {how} {form}", c, K, names, [l for _, l in exp], wu, caches=form == "copy")
                if K.__module__ == __name__ and K.__name__ in globals() and all(isinstance(l, Sym) for l in leaves):
                    c = pickle.loads(pickle.dumps(obj))
                    got = [l for _, l in flatleaves(c, names)]
                    ck.ob(BACK, f"{inst} {how} pickled", type(c) is K and [repr(x) for x in got] == [repr(l) for l in leaves] and TU.tree_structure(c) == td, got, wu)
            # replace
            if "replace" in dir(K):
                for obj in (v, touch(mk(b))):
                    for n in names:
                        old = dict(obj.__dict__)
                        new = mk(b).__dict__[n]
                        r = obj.replace(**{n: new})
                        ok = type(r) is K and r.__dict__[n] is new and all(r.__dict__[m] is obj.__dict__[m] for m in names if m != n) and r is not obj
                        ck.ob(REPL, f"{inst}.{n}", ok and obj.__dict__ == old, f"{r.__dict__}", where_of(K.replace))
                        ck.ob(CACHE, f"{inst}.{n} replaced", set(r.__dict__) == set(names), sorted(set(r.__dict__) ^ set(names)), where_of(K.replace))
                    if len(names) > 1:
                        new = {n: mk(b).__dict__[n] for n in names[:2]}
                        r = obj.replace(**new)
                        ck.ob(REPL, f"{inst}.{names[:2]}", all(r.__dict__[n] is new.get(n, obj.__dict__[n]) for n in names), r.__dict__, where_of(K.replace))
            t = v.to_tuple()
            ck.ob(TUP, f"{inst} to_tuple", ident(t, [v.__dict__[n] for n in names]), t, where_of(K.to_tuple))
            check_same(ck, TUP, f"{inst} from_tuple", K.from_tuple(t), K, names, [l for _, l in flatleaves(v, names)], where_of(K.to_tuple))


def fresh_like(K, r):
    return K(**{n: r.__dict__[n] for n in r.__dataclass_fields__})


def check_same(ck, rule, inst, r, K, names, leaves, w, caches=False):
    if type(r) is not K:
        return ck.ob(rule, inst, False, f"a {type(r).__name__}", w)
    miss = [n for n in names if n not in r.__dict__]
    if miss:
        return ck.ob(rule, inst, False, f"field {miss[0]} is missing", w)
    got = flatleaves(r, names)
    ck.ob(rule, inst, ident([l for _, l in got], leaves), f"{got} instead of {leaves}", w)
    if not caches:
        ck.ob(CACHE, inst, set(r.__dict__) == set(names), f"additional {sorted(set(r.__dict__) - set(names))}", w)


def static(ck):
    w = where_of(dcm.register_dataclass_type_with_jax_tree_util)
    names = ["cap", "b", "mode", "a"]
    for stat in (("cap", "mode"), ("mode",), ("cap",), ("a",), ("cap", "b", "mode", "a")):
        for frozen in (False, True):
            K = base_dataclass(type(f"Stat_{'_'.join(stat)}_{frozen}", (), {"__annotations__": {n: int for n in names}, "__module__": __name__}), static_fields=stat, frozen=frozen)
            dyn = [n for n in names if n not in stat]
            mk = lambda **o: K(**{**{n: (f"S{n}", 3) if n in stat else Sym(n) for n in names}, **o})
            inst = f"static {stat} frozen={frozen}"
            with safe(ck, EVAL, inst, w):
                v = mk()
                leaves, td = TU.tree_flatten(v)
                ck.ob(STAT, inst + " leaves", ident(leaves, [v.__dict__[n] for n in dyn]), leaves, w)
                paths, td2 = TU.tree_flatten_with_path(v)
                ck.ob(SAME, inst, ident([l for _, l in paths], leaves) and [pathstr(p) for p, _ in paths] == dyn and td2 == td, paths, w)
                ck.ob(STAT, inst + " hashable", isinstance(hash(td), int), "", w)
                other = [Sym(f"o{n}") for n in dyn]
                r = TU.tree_unflatten(td, other)
                ok = type(r) is K and set(r.__dict__) == set(names) and all(r.__dict__[n] == v.__dict__[n] for n in stat) and ident([r.__dict__[n] for n in dyn], other)
                ck.ob(BACK, inst, ok, r.__dict__, w)
                u = mk()
                ck.ob(STAT, inst + " equal statics, equal trees", TU.tree_structure(u) == td and hash(TU.tree_structure(u)) == hash(td), "", w)
                for n in stat:
                    for val in ("other", ("S" + n, 4), 0, None):
                        x = mk(**{n: val})
                        ck.ob(STAT, f"{inst} {n}={val!r}", TU.tree_structure(x) != td, "trees with different static values are equal", w)
                        back = TU.tree_unflatten(TU.tree_structure(x), TU.tree_leaves(x))
                        ck.ob(BACK, f"{inst} {n}={val!r}", back.__dict__[n] == val and type(back.__dict__[n]) is type(val), back.__dict__[n], w)
                    # two static fields never exchange their values
                    for m in stat:
                        if m != n:
                            x, y = mk(**{n: 1, m: 2}), mk(**{n: 2, m: 1})
                            ck.ob(STAT, f"{inst} {n}/{m} exchanged", TU.tree_structure(x) != TU.tree_structure(y), "exchanging two static values leaves the tree the same", w)
                    new = v.replace(**{n: "new"})
                    ck.ob(REPL, f"{inst}.{n}", new.__dict__[n] == "new" and all(new.__dict__[q] is v.__dict__[q] for q in names if q != n), new.__dict__, w)
                    rejects_py(ck, f"{inst} {n} not hashable", lambda n=n: TU.tree_flatten(mk(**{n: [1, 2]})), w)
                    rejects_py(ck, f"{inst} {n} not hashable (with path)", lambda n=n: TU.tree_flatten_with_path(mk(**{n: [1, 2]})), w)
                # fields may hold any pytree, also an empty one
                for sub in itertools.product(("leaf", "none", "dict", "empty"), repeat=len(dyn)):
                    if len(dyn) > 2 and len(set(sub)) > 2:
                        continue
                    nested(ck, f"{inst} {sub}", mk(**{n: content(k, n) for n, k in zip(dyn, sub)}), K, names, dyn, w)
                for n in dyn:
                    x = Sym("new")
                    new = v.replace(**{n: x})
                    ck.ob(REPL, f"{inst}.{n}", new.__dict__[n] is x and all(new.__dict__[q] is v.__dict__[q] for q in names if q != n), new.__dict__, w)


def content(kind, n):
    return {"leaf": lambda: Sym(n), "none": lambda: None, "dict": lambda: {"q": Sym(n + ".q"), "p": [Sym(n + ".p0"), None]}, "empty": lambda: ()}[kind]()


def nested(ck, inst, v, K, names, dyn, w):
    """a field may hold any pytree: its own leaves appear in its place, and it is rebuilt in its place"""
    with safe(ck, EVAL, inst, w):
        leaves, td = TU.tree_flatten(v)
        exp = [l for n in dyn for l in TU.tree_leaves(v.__dict__[n])]
        ck.ob(ORDER, inst, ident(leaves, exp), f"{leaves} instead of {exp}", w)
        ck.ob(SAME, inst, ident([l for _, l in TU.tree_flatten_with_path(v)[0]], exp), "", w)
        r = TU.tree_unflatten(td, leaves)
        ok = type(r) is K and set(r.__dict__) == set(names) and all(
            TU.tree_structure(r.__dict__[n]) == TU.tree_structure(v.__dict__[n]) and ident(TU.tree_leaves(r.__dict__[n]), TU.tree_leaves(v.__dict__[n])) for n in dyn) \
            and all(r.__dict__[n] == v.__dict__[n] for n in names if n not in dyn)
        ck.ob(BACK, inst, ok, r.__dict__, w)
        for n in dyn:
            x = Sym("new")
            new = v.replace(**{n: x})
            ck.ob(REPL, f"{inst}.{n}", new.__dict__[n] is x and all(new.__dict__[q] is v.__dict__[q] for q in names if q != n), new.__dict__, w)


def rejects_py(ck, inst, f, w):
    try:
        f()
    except Exception as e:
        return ck.ob(REJ, inst, True)
    return ck.ob(REJ, inst, False, "accepted", w)


def containers(ck):
    """the containers of the library, by their declared fields; configuration fields that select shapes are static"""
    w = where_of(dcm.register_dataclass_type_with_jax_tree_util)
    for name, mk, variants in (
            ("HashTable", lambda **o: HashTable.build(kinds.Scal, **{**dict(seed=1, capacity=8, bucket_size=2), **o}), [dict(capacity=50), dict(bucket_size=4)]),
            ("BGPQ", lambda **o: BGPQ.build(**{**dict(total_size=16, batch_size=4, value_class=kinds.Scal), **o}), [dict(batch_size=2), dict(total_size=64)]),
            ("Queue", lambda **o: Queue.build(**{**dict(max_size=8, value_class=kinds.Scal), **o}), [dict(max_size=9)]),
            ("Stack", lambda **o: Stack.build(**{**dict(max_size=8, value_class=kinds.Scal), **o}), [dict(max_size=9)])):
        with safe(ck, EVAL, name, w):
            v = jax.eval_shape(mk)
            K = type(v)
            names = list(K.__dataclass_fields__)
            leaves, td = TU.tree_flatten(v)
            syms = [Sym(f"s{i}", l.shape, l.dtype) for i, l in enumerate(leaves)]
            r = TU.tree_unflatten(td, syms)
            ck.ob(BACK, name, type(r) is K and set(r.__dict__) == set(v.__dict__) and ident(TU.tree_leaves(r), syms), "", w)
            ck.ob(SAME, name, ident([l for _, l in TU.tree_flatten_with_path(r)[0]], syms), "", w)
            exp = [l for n in names for l in TU.tree_leaves(r.__dict__[n]) if n in r.__dict__ and not isinstance(r.__dict__[n], (int, str, float, bool))]
            ck.ob(ORDER, name, ident(exp, syms), [repr(x) for x in exp], w)
            stat = [n for n in names if not TU.tree_leaves(v.__dict__[n]) or isinstance(v.__dict__[n], (int, str, float, bool))]
            for n in names:
                ck.ob(STAT, f"{name}.{n}", (r.__dict__[n] is v.__dict__[n] or r.__dict__[n] == v.__dict__[n]) if n in stat else True, "", w)
            for o in variants:
                try:
                    u = jax.eval_shape(lambda: mk(**o))
                except Exception as e:
                    raise TraceError(e, repo_frame(e)) from e
                tu = TU.tree_structure(u)
                sv = {n: v.__dict__[n] for n in stat}
                su = {n: u.__dict__[n] for n in stat}
                ck.ob(STAT, f"{name} {o}", (tu != td) == (sv != su), f"static values {sv} and {su}, trees {'differ' if tu != td else 'equal'}", w)


def xforms(ck):
    """through the transformations themselves, on the lowered program"""
    w = where_of(dcm.register_dataclass_type_with_jax_tree_util)
    for K in kinds.ALL:
        v, u = kinds.make(K, (3,)), kinds.make(K, (3,))
        for lab, f, ref in (("jit", lambda x, y: jax.jit(lambda a: a)(x), lambda x, y: x),
                            ("vmap", lambda x, y: jax.vmap(lambda a, b: a)(x, y), lambda x, y: x),
                            ("scan", lambda x, y: jax.lax.scan(lambda c, e: (c, e), 0, x)[1], lambda x, y: x),
                            ("cond", lambda x, y: jax.lax.cond(False, lambda a, b: a, lambda a, b: b, x, y), lambda x, y: y),
                            ("inspect, then tree_map", lambda x, y: TU.tree_map(lambda a, b: a[:2], touch(x), touch(y)), lambda x, y: x[:2]),
                            ("fori", lambda x, y: jax.lax.fori_loop(0, 2, lambda i, c: (c[1], c[0]), (x, y))[0], lambda x, y: x)):
            R = go(ck, EVAL, f"{K.__name__} {lab}", f, (v, u), ["x", "y"])
            if R is None:
                continue
            for p, dt, sh in kinds.leaf_specs(K, batch=(3,)):
                ck.eq(XFORM, f"{K.__name__} {lab} {p}", R.outs[p][0], ref(R.ins["x." + p], R.ins["y." + p]), w)


def negative(ck):
    w = where_of(dcm.base_dataclass)
    for bad in ("from_tuple", "replace", "to_tuple"):
        rejects_py(ck, f"field named {bad}", lambda: base_dataclass(type("Bad", (), {"__annotations__": {bad: int}, "__module__": __name__})), w)
    FZ = base_dataclass(type("FrozenBase", (), {"__annotations__": {"z": int}, "__module__": __name__}), frozen=True)
    rejects_py(ck, "unfrozen child of a frozen class", lambda: base_dataclass(type("Child", (FZ,), {"__annotations__": {"y": int}, "__module__": __name__})), w)
    rejects_py(ck, "assignment to a frozen instance", lambda: setattr(FZ(z=1), "z", 2), w)
    v = filled(kinds.Scal, ())
    rejects_py(ck, "replace of an unknown field", lambda: v.replace(nope=1), w)
