"""C01 Stack: row-provenance analysis of push/pop/peek/index, partitioned on the size and item count."""
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from xtructure import Stack

SIZE = "st.size"


def live(names, ck, rule, inst, R, ins_prefix, out_prefix, rows, where):
    """stored rows `rows` of every field come out as they went in"""
    for nm in names:
        out, s = R.outs[out_prefix + nm]
        ck.eq(rule, f"{inst} field {nm}", out[rows], R.ins[ins_prefix + nm][rows], where)


def store_fields(st, attr):
    return [p for p, _ in leaf_paths(getattr(st, attr))]


def run(ck):
    ck.assume += ["capacities, batch sizes and structure types are representative; sizes are enumerated exhaustively for each",
                  "push within capacity, pop/peek at most the current size (the documented preconditions)"]
    combos = [(kinds.Scal, 6), (kinds.Nest, 4), (kinds.Wide, 3), (kinds.Packed, 3), (kinds.Deep, 3), (kinds.One, 40)]
    if ck.thorough:
        combos += [(k, c) for k in kinds.ALL for c in (1, 2, 5, 9)] + [(kinds.One, 130)]
    for K, cap in combos:
        st = guard(ck, "build", f"{K.__name__} cap={cap}", lambda: abstract(Stack.build, cap, K))
        if st is None:
            continue
        check_build(ck, K, cap)
        fields = store_fields(st, "val_store")
        sizes = range(cap + 1) if cap < 20 else [0, 1, 7, 19, cap - 33, cap - 1, cap]
        ns = [None] + ([*range(1, cap + 1)] if cap < 20 else [1, 2, 17, 33])
        for n in ns:
            items = kinds.make(K, () if n is None else (n,))
            for z in sizes:
                if z + (n or 1) <= cap:
                    push(ck, K, cap, st, items, fields, z, n)
        ks = range(1, cap + 1) if cap < 20 else [1, 2, 18, 33]
        for k in ks:
            for z in sizes:
                if k <= z:
                    take(ck, K, cap, st, fields, z, k)
        for z in sizes:
            for i in ([*range(z)] if cap < 20 else [0, z - 1] if z else []):
                getitem(ck, K, cap, st, fields, z, i)
    large(ck)


def large(ck):
    """index arithmetic must not be narrower than the capacities it addresses (8- and 16-bit boundaries)"""
    for cap, n in [(600, 300), (70000, 66000)]:
        K = kinds.One
        st = guard(ck, "build", f"{K.__name__} cap={cap}", lambda: abstract(Stack.build, cap, K))
        if st is None:
            return
        fields = store_fields(st, "val_store")
        push(ck, K, cap, st, kinds.make(K, (n,)), fields, cap - n, n)
        push(ck, K, cap, st, kinds.make(K, ()), fields, cap - 1, None)
        take(ck, K, cap, st, fields, cap, n)
        take(ck, K, cap, st, fields, cap - 1, 1)
        for i in (0, cap - 1):
            getitem(ck, K, cap, st, fields, cap, i)


def check_build(ck, K, cap):
    R = go(ck, "build", f"{K.__name__} cap={cap}", lambda: Stack.build(cap, K), (), [], {})
    if R is None:
        return
    w = where_of(Stack.build)
    ck.eq("a new stack is empty", f"{K.__name__} cap={cap}", R.outs["size"][0], np.asarray(0, R.outs["size"][1].dtype), w)
    ref = kinds.make(K, (cap,))
    for (p, a), (q, b) in zip(leaf_paths(R.oshape.val_store), leaf_paths(ref)):
        ck.ob("a new stack has room for its capacity", f"{K.__name__} cap={cap} {p}", p == q and a.shape == b.shape and a.dtype == b.dtype, f"{a} vs {b}", w)


def push(ck, K, cap, st, items, fields, z, n):
    inst = f"{K.__name__} cap={cap} size={z} n={n}"
    w = where_of(Stack.push)
    R = go(ck, "push", inst, lambda s, i: s.push(i), (st, items), ["st", "it"], {SIZE: z})
    if R is None:
        return
    m = n or 1
    ck.eq("push raises the size by the number of items", inst, R.outs["size"][0], np.asarray(z + m, R.outs["size"][1].dtype), w)
    ck.ob("push keeps the size dtype", inst, R.outs["size"][1].dtype == st.size.dtype, R.outs["size"][1].dtype, w)
    for nm in fields:
        out, s = R.outs["val_store." + nm]
        old, it = R.ins["st.val_store." + nm], R.ins["it." + nm]
        ck.ob("push keeps storage shape and dtype", f"{inst} {nm}", tuple(s.shape) == old.shape and s.dtype == dict(leaf_paths(st))["val_store." + nm].dtype, s, w)
        exp = np.array(out, dtype=object) if out.dtype != object else out.copy()
        new = it if n is not None else it[None]
        ck.eq("push writes the items in order on top", f"{inst} {nm}", out[z:z + m], new, w)
        ck.eq("push leaves stored items untouched", f"{inst} {nm}", out[:z], old[:z], w)


def take(ck, K, cap, st, fields, z, k):
    inst = f"{K.__name__} cap={cap} size={z} k={k}"
    for op in ("pop", "peek"):
        w = where_of(getattr(Stack, op))
        R = go(ck, op, inst, (lambda s: s.pop(k)) if op == "pop" else (lambda s: s.peek(k)), (st,), ["st"], {SIZE: z})
        if R is None:
            continue
        pre = "1." if op == "pop" else ""
        for nm in fields:
            out = R.outs[pre + nm][0]
            old = R.ins["st.val_store." + nm]
            exp = old[z - k:z]
            if k == 1 and out.ndim == exp.ndim - 1:
                exp = exp[0]
            ck.eq(f"{op} yields the newest items in push order", f"{inst} {nm}", out, exp, w)
            if op == "pop":
                ck.eq("pop leaves the remaining items untouched", f"{inst} {nm}", R.outs["0.val_store." + nm][0][:z - k], old[:z - k], w)
        if op == "pop":
            ck.eq("pop lowers the size by the number of items", inst, R.outs["0.size"][0], np.asarray(z - k, R.outs["0.size"][1].dtype), w)


def getitem(ck, K, cap, st, fields, z, i):
    inst = f"{K.__name__} cap={cap} size={z} idx={i}"
    w = where_of(Stack.__getitem__)
    R = go(ck, "index", inst, lambda s, j: s[j], (st, sds((), np.uint32)), ["st", "i"], {SIZE: z, "i": i})
    if R is None:
        return
    for nm in fields:
        ck.eq("index i reads the i-th item from the bottom", f"{inst} {nm}", R.outs[nm][0], R.ins["st.val_store." + nm][i], w)
