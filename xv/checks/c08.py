"""C08 stored entries are never overwritten or forgotten: batched and single insertions over fill levels, row patterns and competition."""
from ..common import *
from .. import hashtab as H
N = 8


def run(ck):
    ck.assume += ["the insertion kernels of the other platforms are interpreted from the programs lowered for them, program by program (ascending, reversed and interleaved orders; plain reads also as of kernel start), with a smaller share of the partitions",
                  "hash values are an uninterpreted function of the item; table and batch sizes are representative small ones; fill levels, start buckets, steps and equality patterns of the rows are enumerated for them"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)] + H.platforms())


def part(ck, label):
    lim = 100000 if ck.thorough else 560
    for cap, bs, n in [(1, 3, 4), (2, 2, 3), (2, 2, 4), (4, 1, 3), (2, 3, 3), (4, 2, 5)] + ([(8, 1, 4), (1, 6, 6)] if ck.thorough else []):
        fam = H.spread(H.batch_family(cap, bs, n), lim) if (cap, n) != (4, 5) else H.spread(big(cap, bs, n), lim if not ck.thorough else 8000)
        sc = guard(ck, H.DEC, f"{cap} buckets of {bs}", lambda: H.Scene(cap, bs, n))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        for q, cfg in enumerate(H.mine(label, fam)):
            H.run_batch(J, sc, cfg, look=False, q=q, collide=q % 5 == 4)
    sc = H.Scene(1, 33, 3)                 # wider than one occupancy word
    J = H.Judge(ck, sc)
    for q, cfg in enumerate(H.mine(label, [((f,), p, (0,) * (max(p) + 1), 0, (True,) * 3) for f in range(28, 34) for p in H.partitions(3)])):
        H.run_batch(J, sc, cfg, look=False, q=q)


def big(cap, bs, n):
    import itertools
    out = []
    for pat in [(0, 1, 2, 3, 4), (0, 1, 0, 2, 3), (0, 0, 1, 1, 2)]:
        for s in itertools.product(range(cap), repeat=2):
            for step in (1, 3):
                for fill in itertools.product(range(bs + 1), repeat=cap):
                    out.append((fill, pat, tuple(s[i % 2] for i in range(max(pat) + 1)), step, (True,) * n))
    return out
