"""C10 masked rows have no effect: outcome against the groups of unmasked rows and non-interference of masked contents."""
import numpy as np
from ..common import *
from ..interp import lift_arr
from .. import hashtab as H
N = 8
NI = "the contents and hash of a masked row do not influence the table or any other row"
ALLM = "a call with every row masked leaves the table unchanged"


def run(ck):
    ck.assume += ["the insertion kernels of the other platforms are interpreted from the programs lowered for them, program by program (ascending, reversed and interleaved orders; plain reads also as of kernel start), with a smaller share of the partitions",
                  "as C08; masked rows range over a fresh item, a copy of an unmasked row and an item already stored, with colliding and with all-ones hashes"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)] + [(f"exact/{k}/2", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}) for k in range(2)]
           + [(f"lax/{k}/2", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable"}) for k in range(2)] + H.platforms())


def part(ck, label):
    other = "/" in label and label[0] in "el"
    for cap, bs, n, key in [(2, 2, 3, None), (2, 2, 3, "float32"), (4, 1, 3, None), (1, 3, 3, None)][:2 if other else 4]:
        fam = [c for c in H.batch_family(cap, bs, n, masks=True) if not all(c[4])]
        fam = H.spread(fam, (6000 if ck.thorough else 420) // (4 if other else 1))
        sc = guard(ck, H.DEC, f"{cap} buckets of {bs}", lambda: H.Scene(cap, bs, n, key=key))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        for q, cfg in enumerate(H.mine(label, fam)):
            one(ck, J, sc, cfg, q)


def one(ck, J, sc, cfg, q):
    fill, pat, starts, step, mk = cfg
    n = sc.n
    w = where_of(H.HashTable.parallel_insert)
    free = [r for r in range(n) if mk[r]]
    ref = None
    base = [i if mk[r] else None for r, i in enumerate(pat)]
    fills = [50 + 0 * r for r in range(n)], [50 + r for r in range(n)], [pat[free[0]] if free else 50] * n
    for v, sub in enumerate(fills):
        H.SCHED[0] = q              # the compared calls run under one schedule
        ids = [b if b is not None else sub[r] for r, b in enumerate(base)]
        h = H.hashes_for(sc.cap, starts, [step] * len(starts) if isinstance(step, int) else step)
        for r in range(n):
            h[50 + r] = [h[0], (0xFFFFFFFF, 0xFFFFFFFF), (r, 1)][q % 3]
        keys, kn, kr = None, None, None
        if sc.key:
            kr = [(r * 2 + q) % 3 if mk[r] else -1 for r in range(n)]
            keys = {G.src("cost", (k,), np.float32): k for k in range(-1, 3)}
            inv = {k: x for x, k in keys.items()}
            kn = np.empty((n,), dtype=object)
            for r in range(n):
                kn[r] = inv[kr[r]]
        inst = f"{sc.cap} buckets of {sc.bs}, fill {list(fill)}, rows {ids}, mask {[int(b) for b in mk]}, starts {list(starts)}" + (f", costs {kr}" if kr else "")
        with H.Part(sc, h, None, keys):
            st = H.State(sc, fill)
            r = J.insertion(inst, "pinsert", st, ids, mk, kn, kr)
            if r is None:
                return
            L = J.call(inst, "plookup", r[0], ids, mk)
            if L is not None:
                f = lift_arr(L.outs["1"][0]).reshape(-1)
                for x in range(n):
                    if not mk[x]:
                        ck.ob("a masked row of a batched lookup is not reported found", inst, f[x] is G.false(), f"row {x}: {G.show(f[x])}", where_of(H.HashTable.lookup_parallel))
        outs = {k: lift_arr(v) for k, (v, s) in r[2]["R"].outs.items()}
        if not free:
            ok = outs["0.size"].reshape(-1)[0] is lift_arr(st.size).reshape(-1)[0] and all(p is s for p, s in zip(outs["0.table.a"], st.a)) and all(p is s for p, s in zip(outs["0.fingerprints"], st.fp)) \
                and all(p is s for p, s in zip(outs["0.table.b"].reshape(-1), st.b.reshape(-1))) and [int(G.cval(x)) for x in outs["0.bucket_fill_levels"]] == [int(x) for x in st.f]
            ck.ob(ALLM, inst, ok, "the table changed", w)
        if ref is None:
            ref = outs
            continue
        for k, o in outs.items():
            a, b = o, ref[k]
            if k == "3.index":
                a, b = a[list(free)], b[list(free)]
            elif k == "0.table.b" or k == "0.table.a" or k == "0.fingerprints":
                used = [x for x in range(sc.cap * sc.bs) if r[0].fill is not None and x % sc.bs < r[0].fill[x // sc.bs]]
                a, b = a[used], b[used]
            ck.eq(NI, f"{inst}: {k}", a, b, w)
