"""C13 what the hash reads: where every bit of every field goes, and that each word enters the hash through an invertible map of its own."""
import numpy as np
from ..trace import *
from ..common import *
from .. import bits as B
from .. import hashkinds as H

LOSS = "every bit of every field has a position of its own in the word / byte sequence"
FIX = "the word / byte sequence has a fixed length"
INV = "each word of an item enters the hash through an invertible map (no bit of it is lost)"
POS = "the position of a word matters"
SEED = "the hash depends on the seed"
READ = "the hash reads the whole word sequence of the item"
BAT = "hashing batch elements one by one keeps them apart"


def run(ck):
    G.LIFT_CAP[0] = 16
    ck.assume += ["structure types are representative of the dtypes, shapes and nestings the repository accepts; field contents and seeds are universally quantified",
                  "a structure hashed in its packed representation (XTRUCTURE_HASH_AGG_MODE=packed) holds values within the declared widths",
                  "invertibility is shown per word with the others fixed: two items differing in exactly one word never share a hash, and no word is ignored or merged with another before mixing"]
    for name, f in H.PLAIN.items():
        lossless(ck, name, H.build(name, f), f)
    with H.x64():
        for name, f in {**H.WIDE, **(H.PLAIN if ck.thorough else {})}.items():
            lossless(ck, name + " (x64)", H.build(name, f), f)
    for mode in ("raw", "packed", "auto"):
        with H.env(XTRUCTURE_HASH_AGG_MODE=mode):
            for name, f in H.AGG.items():
                lossless(ck, f"{name} agg={mode}", H.build(name, f, True), f)
    for env in ({}, dict(XTRUCTURE_HASH_STREAM="on"), dict(XTRUCTURE_HASH_STREAM="off")):
        with H.env(**env):
            lab = env.get("XTRUCTURE_HASH_STREAM", "auto")
            for n in (1, 2, 3, 5) + ((9, 17) if ck.thorough else ()):
                f = [("a", ("uint32", (n,)))]
                mixing(ck, f"{n} words, stream={lab}", H.build("words", f), f, range(n), [(i, j) for i in range(n) for j in range(i)])
            f = [("a", ("uint32", (2,))), ("b", ("uint32", ())), ("c", ("uint32", (2,)))]
            mixing(ck, f"words in three fields, stream={lab}", H.build("words", f), f, range(5), [(i, j) for i in range(5) for j in range(i)])
            f = [("a", ("uint32", (300,))), ("b", ("uint32", (2,)))]
            mixing(ck, f"302 words, stream={lab}", H.build("words", f), f, (0, 255, 301), [(0, 1), (0, 2), (3, 7), (8, 0), (16, 0), (32, 0), (64, 0), (0, 128), (0, 256), (44, 300), (45, 301), (255, 256), (299, 300), (0, 300), (1, 301)])
    if ck.thorough:
        f = [("a", ("uint32", (66000,)))]
        mixing(ck, "66000 words", H.build("words", f), f, (), [(0, 65536)])


def lossless(ck, name, K, fields):
    x = H.inst(K, fields)
    R = go(ck, LOSS, name, lambda x, s: dict(words=x.uint32ed, bytes=x.bytes, h=x.hash(s), w=x.hash_with_uint32ed(s), p=x.hash_pair(s), q=x.hash_pair_with_uint32ed(s)), (x, sds((), np.uint32)), ["x", "seed"])
    if R is None:
        return
    where = where_of(H.build.__globals__["xtructure_dataclass"])
    from xtructure.core.xtructure_decorators import hash as hm
    where = where_of(hm.byterize_hash_func_builder)
    for what in ("words", "bytes"):
        o, s = R.outs[what]
        ck.ob(FIX, f"{name} {what}", len(s.shape) == 1, s.shape, where)
        ck.ob(FIX, f"{name} {what} dtype", s.dtype == (np.uint32 if what == "words" else np.uint8), s.dtype, where)
        have = {b.id for e in o.reshape(-1) for b in B.bits(e if isinstance(e, G.Node) else G.const(e, s.dtype))}
        for p, dt, nb in H.leaves(fields):
            miss = []
            for i in np.ndindex(*R.ins["x." + p].shape):
                e = R.ins["x." + p][i]
                for k, b in enumerate(B.bits(e)[:nb]):
                    if b.id not in have:
                        miss.append((i, k))
            ck.ob(LOSS, f"{name} {what} field {p}", not miss, f"bit {miss[0][1]} of {p}{list(miss[0][0])} is not in the sequence ({len(miss)} bits missing)" if miss else "", where)
    # the hash of the item is the hash of a structure consisting of exactly those words
    n = int(R.outs["words"][1].shape[0])
    if n == 0:
        return
    V = H.build("ref", [("v", ("uint32", (n,)))])
    R2 = go(ck, READ, name, lambda x, s: dict(h=x.hash(s), p=x.hash_pair(s)), (V(v=sds((n,), np.uint32)), sds((), np.uint32)), ["x", "seed"], inputs={"x.v": R.outs["words"][0], "seed": R.ins["seed"]})
    if R2 is None:
        return
    for a, b in (("h", "h"), ("w.0", "h"), ("p.0", "p.0"), ("p.1", "p.1"), ("q.0.0", "p.0"), ("q.0.1", "p.1")):
        ck.eq(READ, f"{name} {a}", R.outs[a][0], R2.outs[b][0], where)


def mixing(ck, name, K, fields, which, pairs):
    from xtructure.core.xtructure_decorators import hash as hm
    where = where_of(hm.byterize_hash_func_builder)
    x = H.inst(K, fields)
    f = lambda x, s: (x.hash(s), *x.hash_pair(s))
    R = go(ck, INV, name, f, (x, sds((), np.uint32)), ["x", "seed"])
    if R is None:
        return
    names = [p for p, _, _ in H.leaves(fields)]
    flat = np.concatenate([R.ins["x." + p].reshape(-1) for p in names])
    for lab in ("0", "1", "2"):
        h = R.outs[lab][0][()]
        ck.ob(SEED, f"{name} output {lab}", depends(h, R.ins["seed"][()]), "the seed does not reach the hash", where)
        for i in which:
            ok, why = invertible(h, flat[i])
            ck.ob(INV, f"{name} word {i} output {lab}", ok, why, where)
    ck.ob("the two hashes of a pair differ as functions", name, R.outs["1"][0][()] is not R.outs["2"][0][()], "both hashes of the pair are the same function", where)
    for i, j in pairs:
        sw = flat.copy()
        sw[i], sw[j] = flat[j], flat[i]
        inp, k = {"seed": R.ins["seed"]}, 0
        for p in names:
            m = R.ins["x." + p].size
            inp["x." + p] = sw[k:k + m].reshape(R.ins["x." + p].shape)
            k += m
        R2 = go(ck, POS, name, f, (x, sds((), np.uint32)), ["x", "seed"], inputs=inp)
        if R2 is None:
            return
        for lab in ("0", "1", "2"):
            ck.ob(POS, f"{name} words {j},{i} output {lab}", R2.outs[lab][0][()] is not R.outs[lab][0][()], "exchanging the two words leaves the hash unchanged", where)


_DEP: dict = {}


def depends(n, w):
    """w occurs in the (cancellation-simplified) value graph of n"""
    key = w.id
    memo = _DEP.setdefault(key, {})
    st = [n]
    while st:
        a = st[-1]
        if a.id in memo:
            st.pop()
            continue
        if a is w:
            memo[a.id] = True
            st.pop()
            continue
        todo = [c for c in G.children(a) if c.id not in memo]
        if todo:
            st += todo
            continue
        memo[a.id] = any(memo[c.id] for c in G.children(a))
        st.pop()
    return memo[n.id]


def linear(n, w, atoms):
    """masks of the GF(2)-linear part of n over the non-linear nodes that depend on w: list of 32 dicts atom id -> mask, or None"""
    W = G.width(n.dtype)
    if not depends(n, w):
        return [{} for _ in range(W)]
    op = n.op
    if n is not w and op == "xor":
        out = [{} for _ in range(W)]
        for a in n.args:
            for o, m in zip(out, linear(a, w, atoms)):
                for k, v in m.items():
                    o[k] = o.get(k, 0) ^ v
        return out
    if n is not w and op in ("shl", "shr") and G.is_const(n.args[1]):
        k, b = int(G.cval(n.args[1])), linear(n.args[0], w, atoms)
        return ([{}] * k + b[:W - k]) if op == "shl" else (b[k:] + [{}] * k)
    if n is not w and op == "and" and len(n.args) == 2 and any(G.is_const(a) for a in n.args):
        c, a = (n.args if G.is_const(n.args[0]) else n.args[::-1])
        return [m if int(G.cval(c)) >> k & 1 else {} for k, m in enumerate(linear(a, w, atoms))]
    if n is not w and op == "or" and all(depends(a, w) for a in n.args):
        # a rotation: the operands occupy disjoint positions
        ls = [linear(a, w, atoms) for a in n.args]
        zero = [B.bits(a) for a in n.args]
        if all(sum(z[k] is not G.false() for z in zero) <= 1 for k in range(W)):
            out = [{} for _ in range(W)]
            for l in ls:
                for o, m in zip(out, l):
                    o.update(m)
            return out
    if n is not w and op == "lin" and n.args[1] == 0 and len(n.args[0]) == 1 and n.args[0][0][0] & (n.args[0][0][0] - 1) == 0 and n.args[0][0][0] > 0:
        k, b = n.args[0][0][0].bit_length() - 1, linear(n.args[0][0][1], w, atoms)
        return [{}] * k + b[:W - k]
    atoms[n.id] = n
    return [{n.id: 1 << k} for k in range(W)]


def invertible(n, w):
    """n is a bijection of w for every fixed value of everything else"""
    while n is not w:
        if not depends(n, w):
            return False, "the word does not reach the hash"
        atoms = {}
        L = linear(n, w, atoms)
        live = {k for m in L for k, v in m.items() if v}
        if len(live) != 1:
            return False, f"the word reaches the hash through {len(live)} different mixing values"
        a = live.pop()
        rows = [m.get(a, 0) for m in L]
        if rank(rows) < len(rows) or len(rows) != G.width(atoms[a].dtype):
            return False, f"the mixing step {G.show(n, 2)} maps different words to the same value"
        n = atoms[a]
        if n is w:
            break
        if n.op == "lin":
            dep = [(c, x) for c, x in n.args[0] if depends(x, w)]
            if len(dep) == 1 and dep[0][0] % 2 == 1:
                n = dep[0][1]
                continue
        return False, f"the step {G.show(n, 2)} is not shown to be reversible"
    return True, ""


def rank(rows):
    basis, r = [], 0
    for v in rows:
        for b in basis:
            v = min(v, v ^ b)
        if v:
            basis.append(v)
            r += 1
    return r
