"""C07 hash table looks where it stores: chains of insertions and lookups over every start bucket, step and fill level."""
import itertools
import numpy as np
from ..trace import *
from ..common import *
from .. import hashtab as H

N = 8


def run(ck):
    ck.assume += ["the insertion kernels of the other platforms are interpreted from the programs lowered for them, program by program (ascending, reversed and interleaved orders; plain reads also as of kernel start), with a smaller share of the partitions",
                  "hash values are an uninterpreted function of the item; table sizes are representative small ones, start bucket, step, fill levels and insertion form are enumerated completely for them"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)] + [("large/0/1", {})] + H.platforms())


def part(ck, label):
    if label.startswith("large"):
        return large(ck)
    geo = [(1, 1), (1, 2), (2, 1), (2, 2), (4, 1), (2, 3), (4, 2)] + ([(8, 1), (4, 3)] if ck.thorough else [])
    for cap, bs in geo:
        sc = guard(ck, H.DEC, f"capacity {cap} buckets of {bs}", lambda: H.Scene(cap, bs, 2))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        todo = []
        for fill in itertools.product(range(bs + 1), repeat=cap):
            for s in range(cap):
                for t in range(cap):
                    if cap == 4 and bs == 2 and not ck.thorough and (s not in (0, 3) or t in (0, 2)):
                        continue
                    todo.append((fill, s, t))
        for q, (fill, s, t) in enumerate(H.mine(label, todo)):
            chain(J, sc, fill, s, t, q)
    # rows competing for the last slots, each with a step of its own
    for cap, bs, n in ((2, 2, 3), (4, 1, 3), (4, 1, 4), (4, 2, 4)):
        sc = H.Scene(cap, bs, n)
        J = H.Judge(ck, sc)
        fam = H.spread(H.crowded(cap, bs, n), 20000 if ck.thorough else 480)
        for q, cfg in enumerate(H.mine(label, fam)):
            H.run_batch(J, sc, cfg, look=q % 4 == 0, history=False, q=q)
    for k, cap in enumerate((4, 8)):
        if label == f"{k}/{N}" or label[0] in "gt":
            sc = H.Scene(cap, 1, cap)
            H.run_batch(H.Judge(ck, sc), sc, H.displaced(cap))
    # a probe budget smaller than the table: what is stored is still found
    for cap, bs, mp in ((4, 1, 1), (4, 1, 2), (4, 1, 3), (2, 2, 1), (2, 2, 3), (4, 2, 3), (4, 2, 4)):
        sc = H.Scene(cap, bs, 2, max_probes=mp)
        J = H.Judge(ck, sc)
        todo = [(fill, s, t) for fill in itertools.product(range(bs + 1), repeat=cap) for s in range(cap) for t in range(1, cap, 2)]
        for q, (fill, s, t) in enumerate(H.mine(label, H.spread(todo, 20000 if ck.thorough else 160))):
            chain(J, sc, fill, s, t, q)
    # every bucket is reachable: only one bucket has room
    for cap in (8,) if not ck.thorough else (8, 16):
        sc = H.Scene(cap, 1, 2)
        J = H.Judge(ck, sc)
        todo = [(free, s, t) for free in range(cap) for s in range(0, cap, 1 if ck.thorough else 3) for t in range(cap)]
        for q, (free, s, t) in enumerate(H.mine(label, todo)):
            fill = [0 if b == free else 1 for b in range(cap)]
            chain(J, sc, fill, s, t, q, short=True)


def chain(J, sc, fill, s, t, q, short=False):
    cap, bs = sc.cap, sc.bs
    forms = ("insert", "pinsert")
    h = H.hashes_for(cap, (s, (s + q) % cap), (t, (t + 1) % cap))
    if q % 3 == 0:
        h = H.hashes_for(cap, (s, s), (t, t))
    for f1 in forms:
        f2 = forms[q % 2]
        inst = f"{cap} buckets of {bs}, fill {list(fill)}, start {s}, step {t}: {f1}"
        with H.Part(sc, h):
            st = H.State(sc, fill)
            J.lookups(inst + " before", st, [0, 1], {})
            r = J.insertion(inst, f1, st, 0 if f1 == "insert" else [0, 0], None if f1 == "insert" else [True, True])
            if r is None:
                continue
            J.lookups(inst, r[0], [0, 1], r[1])
            if short:
                continue
            r2 = J.insertion(inst + f", then {f2} of another item", f2, r[0], 1 if f2 == "insert" else [1, 0], None if f2 == "insert" else [True, True], present=r[1])
            if r2 is None:
                continue
            J.lookups(inst + f", then {f2} of another item", r2[0], [0, 1], r2[1])
            # inserting the stored item again changes nothing and reports its place
            J.insertion(inst + ", then again", f1, r2[0], 0 if f1 == "insert" else [0, 1], None if f1 == "insert" else [True, True], present=r2[1])


def large(ck):
    """bucket numbers, slot numbers and probe counts beyond 8 and 16 bits"""
    for cap, bs, free, s, t in ((512, 1, 300, 299, 1), (512, 1, 255, 256, 511), (4, 300, 1, 0, 1), (1 << 17, 1, 70001, 70000, 1), (1 << 17, 1, 4, 131071, 5)):
        sc = H.Scene(cap, bs, 2)
        J = H.Judge(ck, sc)
        fill = [bs] * cap
        fill[free] = bs - 1
        h = H.hashes_for(cap, (s, s), (t, t))
        for f in ("insert", "pinsert"):
            inst = f"{cap} buckets of {bs}, only bucket {free} has room, start {s}, step {t}: {f}"
            with H.Part(sc, h):
                st = H.State(sc, fill, fp_const=0)
                r = J.insertion(inst, f, st, 0 if f == "insert" else [0, 0], None if f == "insert" else [True, True])
                if r is not None:
                    J.lookups(inst, r[0], [0, 0], r[1])
