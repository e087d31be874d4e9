"""C12 membership means full equality: lookups over slot contents (equal, nearly equal, leftover) and every fingerprint collision."""
import itertools
import numpy as np
from ..trace import *
from ..common import *
from ..interp import lift_arr
from .. import hashtab as H
from xtructure import HashTable
N = 8
KINDS = ("other", "near0", "near1", "near2", "equal")


def run(ck):
    ck.assume += ["hash values are an uninterpreted function of the item; stored fingerprints are symbolic, so every pattern of fingerprint collisions is covered",
                  "table sizes are representative small ones; fill levels, start buckets, steps and slot contents (equal, different in one component, leftover) are enumerated for them"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)])


def part(ck, label):
    for cap, bs in ((1, 2), (1, 3), (2, 2), (4, 1)):
        sc = guard(ck, H.DEC, f"{cap} buckets of {bs}", lambda: H.Scene(cap, bs, 2))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        todo = []
        for fill in itertools.product(range(bs + 1), repeat=cap):
            slots = [k for k in range(cap * bs) if k % bs < fill[k // bs]]
            free = [k for k in range(cap * bs) if k not in slots]
            for kinds in itertools.product(KINDS, repeat=len(slots)):
                if kinds.count("equal") > 1:
                    continue
                for s in range(cap):
                    todo.append((fill, slots, free, kinds, s))
        todo = H.spread(todo, 20000 if ck.thorough else 800)
        for q, (fill, slots, free, kinds, s) in enumerate(H.mine(label, todo)):
            contents(J, sc, fill, slots, free, kinds, s, q)
        getitem(J, sc, label)
        # every stored fingerprint equals the fingerprint of the item
        fam = H.spread(H.batch_family(cap, bs, 2), 4000 if ck.thorough else 160)
        for q, (fill, pat, starts, step, mk) in enumerate(H.mine(label, fam)):
            steps = [step] * (max(pat) + 1) if isinstance(step, int) else step
            with H.Part(sc, H.hashes_for(cap, starts, steps)):
                inst = f"{cap} buckets of {bs}, fill {list(fill)}, rows {list(pat)}, starts {list(starts)}, steps {list(steps)}, all fingerprints collide with row {q % 2}"
                r = J.insertion(inst + " (fingerprint)", "insert", H.State(sc, [0] * cap), pat[q % 2], None)
                if r is None:
                    continue
                fp = [H.const_of(r[0].fp[k]) for k in r[1].values()][0]
                if fp is None:
                    J.ob(H.DEC, inst, False, "the stored fingerprint does not follow from the hash pair", where_of(HashTable.insert))
                    continue
                st = H.State(sc, fill, fp_const=fp)
                form = ("insert", "pinsert")[q // 2 % 2]
                r = J.insertion(inst, form, st, pat[0] if form == "insert" else pat, None if form == "insert" else mk)
                if r is not None:
                    J.lookups(inst, r[0], pat, r[1])


def assignments(node_list):
    ats = []
    for n in node_list:
        for m in G.walk([n]):
            if m.op == "ite" and m.args[0] not in ats:
                ats.append(m.args[0])
        if n.dtype == np.dtype(bool):
            ats += [m for m in G.leaves(n) if not G.is_const(m) and m not in ats]
    if len(ats) > 10:
        return None
    return [dict(zip(ats, v)) for v in itertools.product((True, False), repeat=len(ats))]


def contents(J, sc, fill, slots, free, kinds, s, q):
    cap, bs = sc.cap, sc.bs
    put = {(k // bs, k % bs): 0 for k, c in zip(slots, kinds) if c == "equal"}
    near = {k: (0, int(c[4])) for k, c in zip(slots, kinds) if c.startswith("near")}
    stale = {k: 0 for k in free}
    ok = {k for k, c in zip(slots, kinds) if c == "equal"}
    inst = f"{cap} buckets of {bs}, fill {list(fill)}, used slots {dict(zip(slots, kinds))}, start {s}"
    with H.Part(sc, H.hashes_for(cap, (s, (s + 1) % cap), (1, 1))):
        st = H.State(sc, fill, put, near=near, stale=stale)
        for kind, ids, mask, outs in (("lookup", 0, None, ("0.index", "1")), ("plookup", [0, 1], [True, True], ("0.index", "1")), ("bucket", 0, None, None),
                                      ("plookup", [1, 0], [False, True], ("0.index", "1")), ("plookup_scalar", [0, 1], q % 2 == 0, ("0.index", "1")), ("plookup_nomask", [0, 0], None, ("0.index", "1"))):
            if (kind.startswith("plookup_") or mask == [False, True]) and q % 3:
                continue
            R = J.call(inst, kind, st, ids, mask)
            if R is None:
                continue
            w = where_of({"lookup": HashTable.lookup, "bucket": HashTable.lookup_bucket}.get(kind, HashTable.lookup_parallel))
            if kind == "bucket":
                bi, si = (lift_arr(R.outs[k][0]).reshape(-1)[0] for k in ("0.index", "0.slot_index"))
                idx = [G.binop("add", G.binop("mul", G.cvt(bi, np.dtype(np.uint32)), G.const(bs, np.uint32)), G.cvt(si, np.dtype(np.uint32)))]
                found = [lift_arr(R.outs["1"][0]).reshape(-1)[0]]
            else:
                idx, found = (list(lift_arr(R.outs[k][0]).reshape(-1)) for k in outs)
            for r, (x, f) in enumerate(zip(idx, found)):
                i = ids if kind in ("lookup", "bucket") else ids[r]
                act = True if mask is None or kind in ("lookup", "bucket") else mask if isinstance(mask, bool) else mask[r]
                A = assignments([x, f])
                if A is None:
                    J.ob(H.DEC, inst, False, f"{kind}: the result depends on too many comparisons: {G.show(f)}", w)
                    continue
                for asg in A:
                    fv, xv = G.restrict(f, asg), G.restrict(x, asg)
                    cf = H.const_of(fv)
                    if cf is None or H.const_of(xv) is None and cf:
                        J.ob(H.DEC, inst, False, f"{kind}: found is {G.show(fv)}, index {G.show(xv)}", w)
                    elif cf:
                        k = H.const_of(xv)
                        J.ob(H.EQUAL, inst, act and i == 0 and k in ok,
                             lambda: f"{kind} row {r}{'' if act else ' (masked)'}: reports slot {k} ({dict(zip(slots, kinds)).get(k, 'not in use')}) as holding {'the item' if i == 0 else 'an item that differs from all stored ones'}", w)
                    else:
                        J.ob(H.EQUAL, inst, True)


def getitem(J, sc, label):
    if label != f"0/{N}":
        return
    for kind, idxs in (("getitem", [k for k in range(sc.cap * sc.bs)]), ("getitems", [(k, (3 * k + 1) % (sc.cap * sc.bs)) for k in range(sc.cap * sc.bs)])):
        for k in idxs:
            st = H.State(sc, [sc.bs] * sc.cap)
            I = H.Interp()
            R = sc.prog(kind).run(fixed=dict(st.fixed(), **{"i.index": np.array(k, np.uint32)}), inputs=st.inputs(), interp=I)
            J.ck.eqns += I.eqns; J.ck.configs += 1
            a = lift_arr(R.outs["a"][0]).reshape(-1)
            b = lift_arr(R.outs["b"][0]).reshape(-1, sc.nb)
            for r, kk in enumerate(np.atleast_1d(k)):
                good = a[r] is st.a[kk] and all(p is q for p, q in zip(b[r], st.b[kk]))
                J.ob(H.ADDR, f"{sc.cap} buckets of {sc.bs}, index {kk}", good, lambda: f"t[{kk}] is {G.show(b[r][-1])}", where_of(HashTable.__getitem__))
