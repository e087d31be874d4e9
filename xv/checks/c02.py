"""C02 Queue: row-provenance analysis of enqueue/dequeue/peek/clear/index, partitioned on head, tail and item count."""
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from .c01 import store_fields
from xtructure import Queue


def run(ck):
    ck.assume += ["capacities, batch sizes and structure types are representative; head/tail pairs are enumerated exhaustively for the small ones",
                  "enqueue within capacity, dequeue/peek at most the current size (the documented preconditions)"]
    combos = [(kinds.Scal, 5), (kinds.Nest, 3), (kinds.Wide, 2), (kinds.Packed, 2), (kinds.Deep, 2), (kinds.One, 40)]
    if ck.thorough:
        combos += [(k, c) for k in kinds.ALL for c in (1, 3, 4)] + [(kinds.Scal, 8), (kinds.One, 130)]
    for K, cap in combos:
        st = guard(ck, "build", f"{K.__name__} cap={cap}", lambda: abstract(Queue.build, cap, K))
        if st is None:
            continue
        build(ck, K, cap)
        fields = store_fields(st, "val_store")
        pairs = [(h, t) for t in range(cap + 1) for h in range(t + 1)] if cap < 20 else [(0, 0), (0, 7), (5, 7), (3, cap), (cap, cap), (1, 34), (2, 3)]
        for h, t in pairs:
            for n in [None] + ([*range(1, cap - t + 1)] if cap < 20 else [x for x in (1, 2, 17, 33) if t + x <= cap]):
                if t + (n or 1) <= cap:
                    enq(ck, K, cap, st, fields, h, t, n)
            for k in ([*range(1, t - h + 1)] if cap < 20 else [x for x in (1, 2, 33) if h + x <= t]):
                deq(ck, K, cap, st, fields, h, t, k)
            for i in ([*range(t - h)] if cap < 20 else [0, t - h - 1] if t > h else []):
                getitem(ck, K, cap, st, fields, h, t, i)
            misc(ck, K, cap, st, fields, h, t)
    large(ck)


def large(ck):
    """index arithmetic must not be narrower than the capacities it addresses (8- and 16-bit boundaries)"""
    for cap, n in [(600, 300), (70000, 66000)]:
        K = kinds.One
        st = guard(ck, "build", f"{K.__name__} cap={cap}", lambda: abstract(Queue.build, cap, K))
        if st is None:
            return
        fields = store_fields(st, "val_store")
        enq(ck, K, cap, st, fields, 0, cap - n, n)
        enq(ck, K, cap, st, fields, cap - 2, cap - 1, None)
        deq(ck, K, cap, st, fields, 3, cap, n)
        deq(ck, K, cap, st, fields, cap - 1, cap, 1)
        for i in (0, cap - 4):
            getitem(ck, K, cap, st, fields, 3, cap, i)


def fx(h, t):
    return {"q.head": h, "q.tail": t}


def build(ck, K, cap):
    inst = f"{K.__name__} cap={cap}"
    w = where_of(Queue.build)
    R = go(ck, "build", inst, lambda: (Queue.build(cap, K), Queue.build(cap, K).size), (), [], {})
    if R is None:
        return
    for f in ("0.head", "0.tail", "1"):
        ck.eq("a new queue is empty", f"{inst} {f}", R.outs[f][0], np.asarray(0, R.outs[f][1].dtype), w)
    ref = kinds.make(K, (cap,))
    for (p, a), (q, b) in zip(leaf_paths(R.oshape[0].val_store), leaf_paths(ref)):
        ck.ob("a new queue has room for its capacity", f"{inst} {p}", p == q and a.shape == b.shape and a.dtype == b.dtype, f"{a} vs {b}", w)


def num(ck, rule, inst, R, f, v, w):
    ck.eq(rule, inst, R.outs[f][0], np.asarray(v, R.outs[f][1].dtype), w)


def enq(ck, K, cap, st, fields, h, t, n):
    inst = f"{K.__name__} cap={cap} head={h} tail={t} n={n}"
    w = where_of(Queue.enqueue)
    items = kinds.make(K, () if n is None else (n,))
    R = go(ck, "enqueue", inst, lambda s, i: s.enqueue(i), (st, items), ["q", "it"], fx(h, t))
    if R is None:
        return
    m = n or 1
    num(ck, "enqueue keeps the front", inst, R, "head", h, w)
    num(ck, "enqueue advances the back by the number of items", inst, R, "tail", t + m, w)
    for nm in fields:
        out, s = R.outs["val_store." + nm]
        old, it = R.ins["q.val_store." + nm], R.ins["it." + nm]
        ck.ob("enqueue keeps storage shape", f"{inst} {nm}", tuple(s.shape) == old.shape, s, w)
        ck.eq("enqueue appends the items in order", f"{inst} {nm}", out[t:t + m], it if n is not None else it[None], w)
        ck.eq("enqueue leaves waiting items untouched", f"{inst} {nm}", out[h:t], old[h:t], w)


def deq(ck, K, cap, st, fields, h, t, k):
    inst = f"{K.__name__} cap={cap} head={h} tail={t} k={k}"
    for op in ("dequeue", "peek"):
        w = where_of(getattr(Queue, op))
        R = go(ck, op, inst, (lambda s: s.dequeue(k)) if op == "dequeue" else (lambda s: s.peek(k)), (st,), ["q"], fx(h, t))
        if R is None:
            continue
        pre = "1." if op == "dequeue" else ""
        for nm in fields:
            out = R.outs[pre + nm][0]
            old = R.ins["q.val_store." + nm]
            exp = old[h:h + k]
            if k == 1 and out.ndim == exp.ndim - 1:
                exp = exp[0]
            ck.eq(f"{op} yields the oldest items in arrival order", f"{inst} {nm}", out, exp, w)
            if op == "dequeue":
                ck.eq("dequeue leaves the waiting items untouched", f"{inst} {nm}", R.outs["0.val_store." + nm][0][h + k:t], old[h + k:t], w)
        if op == "dequeue":
            num(ck, "dequeue advances the front by the number of items", inst, R, "0.head", h + k, w)
            num(ck, "dequeue keeps the back", inst, R, "0.tail", t, w)


def getitem(ck, K, cap, st, fields, h, t, i):
    inst = f"{K.__name__} cap={cap} head={h} tail={t} idx={i}"
    R = go(ck, "index", inst, lambda s, j: s[j], (st, sds((), np.uint32)), ["q", "i"], {**fx(h, t), "i": i})
    if R is None:
        return
    for nm in fields:
        ck.eq("index i reads the i-th item from the front", f"{inst} {nm}", R.outs[nm][0], R.ins["q.val_store." + nm][h + i], where_of(Queue.__getitem__))


def misc(ck, K, cap, st, fields, h, t):
    inst = f"{K.__name__} cap={cap} head={h} tail={t}"
    R = go(ck, "size", inst, lambda s: s.size, (st,), ["q"], fx(h, t))
    if R is not None:
        num(ck, "size is enqueued minus dequeued", inst, R, "", t - h, where_of(Queue.size))
    R = go(ck, "clear", inst, lambda s: (s.clear(), s.clear().size), (st,), ["q"], fx(h, t))
    if R is not None:
        w = where_of(Queue.clear)
        num(ck, "clear empties the queue", inst, R, "1", 0, w)
        num(ck, "clear restarts at the beginning of the storage", inst, R, "0.head", 0, w)
        num(ck, "clear restarts at the beginning of the storage", inst, R, "0.tail", 0, w)
