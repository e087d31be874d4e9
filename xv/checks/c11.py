"""C11 the size counts exactly the new entries: insertions with duplicates, masked rows, known rows and full tables."""
from ..common import *
from .. import hashtab as H
N = 8


def run(ck):
    ck.assume += ["the insertion kernels of the other platforms are interpreted from the programs lowered for them, program by program (ascending, reversed and interleaved orders; plain reads also as of kernel start), with a smaller share of the partitions",
                  "as C08; the size before the call is symbolic"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)] + H.platforms())


def part(ck, label):
    lim = 20000 if ck.thorough else 480
    for cap, bs, n in [(1, 2, 3), (2, 2, 3), (4, 1, 3), (2, 3, 4), (1, 5, 4)]:
        fam = H.spread(H.batch_family(cap, bs, n, masks=True), lim)
        sc = guard(ck, H.DEC, f"{cap} buckets of {bs}", lambda: H.Scene(cap, bs, n))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        for q, cfg in enumerate(H.mine(label, fam)):
            H.run_batch(J, sc, cfg, look=False, q=q, collide=q % 7 == 6)
    # single insertions, scalar masks
    for cap, bs in ((1, 1), (2, 2), (4, 1)):
        sc = H.Scene(cap, bs, 2)
        J = H.Judge(ck, sc)
        import itertools
        todo = [(fill, s) for fill in itertools.product(range(bs + 1), repeat=cap) for s in range(cap)]
        for fill, s in H.mine(label, todo):
            with H.Part(sc, H.hashes_for(cap, (s, s), (1, 1))):
                st = H.State(sc, fill)
                inst = f"{cap} buckets of {bs}, fill {list(fill)}, start {s}"
                r = J.insertion(inst, "insert", st, 0, None)
                if r:
                    J.insertion(inst + " twice", "insert", r[0], 0, None, present=r[1])
                for m in (True, False):
                    J.insertion(f"{inst}, scalar mask {m}", "pinsert_scalar", st, [0, 1], m)
                J.insertion(f"{inst}, no mask", "pinsert_nomask", st, [0, 1], None)
