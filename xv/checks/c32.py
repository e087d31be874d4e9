"""C32 random instances: shapes, dtypes, range and key provenance of every field, on derivation terms of the random keys."""
import contextlib
import numpy as np
from ..trace import *
from .. import kinds
from .. import bits as B
from .. import hashkinds as H
from ..common import *
from ..interp import lift_arr, Interp
from xtructure import xtructure_dataclass, FieldDescriptor as F
from xtructure.core.xtructure_decorators import structure_util

SHAPE = "every field has batch shape plus declared shape and the declared dtype"
FULL = "every bit of an integer field is a random bit of its own"
BOTH = "the extreme draws give both truth values / values inside [0, 1)"
KEYS = "no two fields are derived from the same random key, nor from a key and its ancestor"
DRAW = "every element of a field is a draw of its own"
DEP = "every field is derived from the given key"
BUILD = "a random instance can be generated"


def run(ck):
    ck.assume += ["the key derivation of the array library (split, fold_in) and its bit generator are uninterpreted, injective constructors; the i-th key of a split does not depend on the number of keys asked for",
                  "structure types and batch shapes are representatives; keys are universally quantified"]
    ck.fan([(k, {}) for k in ("kinds", "many", "x64")])


def part(ck, label):
    if label == "kinds":
        shapes = [(), (3,), (2, 2), (0,), (1,)] + ([(5, 2), (17,), (2, 1, 3), (1, 0)] if ck.thorough else [])
        for K in kinds.ALL:
            specs = kinds.leaf_specs(K)
            for b in shapes:
                one(ck, K, b, [(p, d, b + s) for p, d, s in specs])
        for K in (kinds.Scal, kinds.Deep):
            one(ck, K, (2,), [(p, d, (2,) + s) for p, d, s in kinds.leaf_specs(K)], typed=True)
            specs = [(p, d, s) for p, d, s in kinds.leaf_specs(K)]
            P = guard(ck, BUILD, f"{K.__name__}.random() without arguments", lambda: Prog(lambda: K.random(), [], []))
            if P is not None:
                ck.ob(SHAPE, f"{K.__name__}.random()", [(q, np.dtype(l.dtype), tuple(l.shape)) for q, l in leaf_paths(P.oshape)] == specs, leaf_paths(P.oshape), where_of(structure_util.add_structure_utilities))
    elif label == "many":
        for n in (1, 2, 3, 9) + ((33,) if ck.thorough else ()):
            flds = {f"f{(i * 7) % n if n > 1 and n % 7 else i}": ("uint32", ()) for i in range(n)}
            K, sp = gen(f"Many{n}", flds)
            one(ck, K, (2,), sp((2,)))
        L1, s1 = gen("Leaf1", {"v": ("uint16", ())})
        M, sm = gen("Mid", {"l": (L1, ()), "m": (L1, (2,))}, s1)
        T, st = gen("Top", {"a": (M, ()), "b": (L1, ()), "c": ("uint16", ()), "d": (M, (2,))}, {M: sm, L1: s1})
        for b in ((), (2,)):
            one(ck, T, b, st(b))
        for a, b in (("uint8", "int8"), ("bool", "bool"), ("float32", "uint32"), ("float16", "float16"), ("bfloat16", "int16")):
            K, sp = gen(f"Pair_{a}_{b}", {"x": (a, (2,)), "y": (b, ())})
            one(ck, K, (), sp(()))
            one(ck, K, (2,), sp((2,)))
        Pk = xtructure_dataclass(type("RandAgg", (), {"__annotations__": {"a": F.scalar(dtype=jnp.uint8, bits=8, default=0), "b": F.tensor(dtype=jnp.bool_, shape=(3,), bits=1, fill_value=False)}, "__module__": __name__}), aggregate_bitpack=True)
        one(ck, Pk, (2,), [("a", np.dtype("uint8"), (2,)), ("b", np.dtype(bool), (2, 3))])
    else:
        with H.x64():
            for dt in ("uint64", "int64", "float64", "uint32", "int16"):
                K, sp = gen(f"W_{dt}", {"x": (dt, ()), "y": ("uint8", (2,)), "z": (dt, (2,))})
                for b in ((), (3,)):
                    one(ck, K, b, sp(b))


def gen(name, fields, sub=None):
    K = xtructure_dataclass(type(name, (), {"__annotations__": {n: F.tensor(dtype=(t if isinstance(t, type) else jnp.dtype(t)), shape=s) if s else F.scalar(dtype=(t if isinstance(t, type) else jnp.dtype(t))) for n, (t, s) in fields.items()}, "__module__": __name__}))

    def sp(b):
        out = []
        for n, (t, s) in fields.items():
            if isinstance(t, type):
                f = sub[t] if isinstance(sub, dict) else sub
                out += [(f"{n}.{p}", d, sh) for p, d, sh in f(tuple(b) + s)]
            else:
                out.append((n, np.dtype(jnp.dtype(t)), tuple(b) + s))
        return out
    return K, sp


class Extreme(Interp):
    """partition of the random bits: every draw is the given bit"""
    def __init__(self, bit):
        super().__init__()
        self.bit = bit

    def p_random_bits(self, eqn, p, a):
        av = eqn.outvars[0].aval
        return np.full(av.shape, np.iinfo(np.dtype(av.dtype)).max if self.bit else 0, np.dtype(av.dtype))


def keysof(n, memo):
    if n.id not in memo:
        memo[n.id] = {x.args[0] for x in G.walk([n]) if x.op == "rbits"}
    return memo[n.id]


def one(ck, K, b, specs, typed=False):
    w = where_of(structure_util.add_structure_utilities)
    inst = f"{K.__name__}.random({b}){' typed key' if typed else ''}"
    key = jax.eval_shape(lambda: jax.random.key(0)) if typed else sds((2,), np.uint32)
    P = guard(ck, BUILD, inst, lambda: Prog(lambda k: K.random(b, k), [key], ["key"]))
    if P is None:
        return
    outs = leaf_paths(P.oshape)
    ck.ob(SHAPE, inst, [(p, np.dtype(l.dtype), tuple(l.shape)) for p, l in outs] == specs, f"{[(p, str(l.dtype), l.shape) for p, l in outs]} instead of {specs}", w)
    K0 = G.src("key", (), np.uint64)
    base = K0 if typed else None
    R = P.run(inputs={"key": K0} if typed else None)
    ck.saw(R.I)
    root = K0 if typed else G.mk("key", tuple(R.ins["key"]), np.uint64)
    memo, owner = {}, {}
    for (p, l), o in zip(outs, R.flat):
        if l.size == 0:
            continue
        e = list(lift_arr(o).reshape(-1))
        ks = set().union(*(keysof(x, memo) for x in e))
        ck.ob(DRAW, f"{inst}.{p}", len({x.id for x in e}) == len(e) and all(keysof(x, memo) for x in e), "two elements are the same draw, or an element is not random", w)
        ck.ob(DEP, f"{inst}.{p}", ks and all(root in G.walk([k]) or root is k for k in ks), "not derived from the given key", w)
        for k in ks:
            owner.setdefault(k, []).append(p)
        dt = np.dtype(l.dtype)
        if dt.kind in "ui":
            bad = None
            for x in e:
                bs = B.bits(x)
                if len({q.id for q in bs}) != len(bs) or any(G.is_const(q) for q in bs) or not all(any(y.op == "rbits" for y in G.walk([q])) for q in bs):
                    bad = x
            ck.ob(FULL, f"{inst}.{p}", bad is None, "" if bad is None else f"element {G.show(bad)} does not take every value", w)
    twice = {k: ps for k, ps in owner.items() if len(ps) > 1}
    ck.ob(KEYS, inst, not twice, "" if not twice else f"fields {sorted(twice.values())[0]} use one key", w)
    anc = [(owner[k], owner[j]) for k in owner for j in owner if k is not j and any(x is j for x in G.walk([k]))]
    ck.ob(KEYS, inst + " ancestors", not anc, "" if not anc else f"the key of {anc[0][0]} is derived from the key drawn from for {anc[0][1]}", w)
    if any(np.dtype(l.dtype).kind not in "ui" for _, l in outs):
        lo, hi = (P.run(inputs={"key": K0} if typed else None, interp=Extreme(bit)) for bit in (0, 1))
        for (p, l), x, y in zip(outs, lo.flat, hi.flat):
            if l.size == 0 or np.dtype(l.dtype).kind in "ui":
                continue
            if isinstance(x, np.ndarray) and x.dtype == object or isinstance(y, np.ndarray) and y.dtype == object:
                ck.ob(BOTH, f"{inst}.{p}", False, "the draw does not decide the value", w)
                continue
            if np.dtype(l.dtype) == bool:
                ck.ob(BOTH, f"{inst}.{p}", bool(np.all(np.asarray(x) != np.asarray(y))), f"draws 0.. and 1.. both give {np.asarray(x).reshape(-1)[0]}", w)
            else:
                a, c = np.asarray(x).astype(np.float64), np.asarray(y).astype(np.float64)
                ck.ob(BOTH, f"{inst}.{p}", bool(np.all((0 <= a) & (a < 1) & (0 <= c) & (c < 1) & (a != c))), f"draws give {a.reshape(-1)[0]} and {c.reshape(-1)[0]}", w)
