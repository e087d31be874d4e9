"""C14 hash entry points: value-number equality of every way to hash an item, across implementations and settings."""
import numpy as np
from ..trace import *
from ..common import *
from .. import hashkinds as H

SAME = "every hash entry point gives the same hash"
WORDS = "the word sequence returned with the hash is the item's word sequence"
MODE = "streaming and non-streaming implementations give the same hash"
VM = "hashing under batching gives each row the hash of the row alone"
DEF = "the default seed is seed 0"


def entry(x, s):
    w, ww = x.hash_with_uint32ed(s)
    q, qw = x.hash_pair_with_uint32ed(s)
    return dict(h=x.hash(s), w=w, p=x.hash_pair(s), q=q, u=x.uint32ed, wu=ww, qu=qw)


def where():
    from xtructure.core.xtructure_decorators import hash as hm
    return where_of(hm.byterize_hash_func_builder)


def run(ck):
    G.LIFT_CAP[0] = 16
    ck.assume += ["structure types, batch sizes and streaming thresholds are representative; field contents and seeds are universally quantified",
                  "the hash of a structure hashed in its packed representation is compared within that setting only (the representation is chosen once per type)"]
    modes = [dict(XTRUCTURE_HASH_STREAM="auto"), dict(XTRUCTURE_HASH_STREAM="off"), dict(XTRUCTURE_HASH_STREAM="on")] + \
            [dict(XTRUCTURE_HASH_STREAM="auto", XTRUCTURE_HASH_STREAM_THRESHOLD_U32=str(t)) for t in ((0, 2, 3) if not ck.thorough else range(12))]
    for name, f in H.PLAIN.items():
        across(ck, name, f, modes, {})
    big = [("a", ("uint32", (300,))), ("e", ("uint8", (0,))), ("b", ("uint8", (7,))), ("c", ("float16", (9,)))]
    across(ck, "many words", big, modes[:3], {}, batch=False)
    auto = [("a", ("uint32", (8193,))), ("b", ("uint32", (3,)))]
    across(ck, "beyond the default threshold", auto, [{}, modes[1]], {}, batch=False)
    with H.x64():
        for name, f in H.WIDE.items():
            across(ck, name + " (x64)", f, modes[:3], {}, batch=False)
    for agg in ("raw", "packed", "auto"):
        for name, f in H.AGG.items():
            across(ck, f"{name} agg={agg}", f, modes[:3], dict(XTRUCTURE_HASH_AGG_MODE=agg), agg=True)
    for k, env in enumerate((dict(XTRUCTURE_HASH_STREAM="sometimes"), dict(XTRUCTURE_HASH_STREAM_THRESHOLD_U32="-1"), dict(XTRUCTURE_HASH_STREAM_THRESHOLD_U32="x"), dict(XTRUCTURE_HASH_AGG_MODE="other"))):
        with H.env(**env):
            def f(v):
                K = H.build(f"bad{k}", H.PLAIN["word"])
                return H.inst(K, H.PLAIN["word"]).hash(v) if False else K(a=v).hash(0)
            rejects(ck, "unknown settings are rejected", str(env), f, (sds((), np.uint32),), where())


def across(ck, name, f, modes, extra, agg=False, batch=True):
    ref = None
    for env in modes:
        with H.env(**env, **extra):
            lab = f"{name} {' '.join(f'{k[15:].lower()}={v}' for k, v in env.items())}".strip()
            try:
                K = H.build(name, f, agg)
            except Exception as e:
                t = TraceError(e, repo_frame(e))
                ck.crash(SAME, lab, t)
                continue
            R = one(ck, lab, K, f)
            if R is None:
                continue
            if ref is None:
                ref = R
            else:
                for o in ("h", "p.0", "p.1", "w", "q.0", "q.1"):
                    ck.eq(MODE, f"{lab} {o}", R.outs[o][0], ref.outs[o][0], where())
            if batch:
                vm(ck, lab, K, f, R)


def one(ck, lab, K, f):
    x = H.inst(K, f)
    R = go(ck, SAME, lab, entry, (x, sds((), np.uint32)), ["x", "seed"])
    if R is None:
        return None
    h = R.outs["h"][0]
    for o in ("w", "p.0", "q.0"):
        ck.eq(SAME, f"{lab} {o}", R.outs[o][0], h, where())
    ck.eq(SAME, f"{lab} q.1", R.outs["q.1"][0], R.outs["p.1"][0], where())
    for o in ("h", "w", "p.0", "p.1", "q.0", "q.1"):
        s = R.outs[o][1]
        ck.ob("a hash is a single 32-bit word", f"{lab} {o}", tuple(s.shape) == () and s.dtype == np.uint32, s, where())
    for o in ("wu", "qu"):
        ck.ob(WORDS, f"{lab} {o} shape", R.outs[o][1].shape == R.outs["u"][1].shape and R.outs[o][1].dtype == R.outs["u"][1].dtype, R.outs[o][1], where())
        if R.outs[o][1].shape == R.outs["u"][1].shape:
            ck.eq(WORDS, f"{lab} {o}", R.outs[o][0], R.outs["u"][0], where())
    D = go(ck, DEF, lab, lambda x: (x.hash(), x.hash(0), x.hash_with_uint32ed()[0], x.hash_pair(), x.hash_pair(0), x.hash_pair_with_uint32ed()[0]), (x,), ["x"])
    if D is not None:
        for a, b in (("0", "1"), ("2", "1"), ("3.0", "1"), ("3.1", "4.1"), ("4.0", "1"), ("5.0", "1"), ("5.1", "4.1")):
            ck.eq(DEF, f"{lab} {a}", D.outs[a][0], D.outs[b][0], where())
    P = go(ck, SAME, lab, lambda x: (entry(x, 0x7FFFFFF7), entry(x, jnp.uint32(0x7FFFFFF7))), (x,), ["x"])
    if P is not None:
        for o in ("h", "w", "p.0", "p.1", "q.0", "q.1"):
            ck.eq("a seed given as a number or as an array is the same seed", f"{lab} {o}", P.outs["0." + o][0], P.outs["1." + o][0], where())
    return R


def vm(ck, lab, K, f, R):
    n = 3
    x = H.inst(K, f, (n,))
    V = go(ck, VM, lab, lambda x, s: jax.vmap(lambda r: entry(r, s))(x), (x, sds((), np.uint32)), ["x", "seed"], inputs={"seed": R.ins["seed"]})
    if V is None:
        return
    for i in range(n):
        rows = {"x." + p: V.ins["x." + p][i] for p, _, _ in H.leaves(f)}
        S = go(ck, VM, f"{lab} row {i}", entry, (H.inst(K, f), sds((), np.uint32)), ["x", "seed"], inputs={**rows, "seed": R.ins["seed"]})
        if S is None:
            return
        for o in ("h", "p.0", "p.1", "q.0", "q.1", "qu"):
            ck.eq(VM, f"{lab} row {i} {o}", V.outs[o][0][i], S.outs[o][0], where())
