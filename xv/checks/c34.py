"""C34 probing ends within its budget: lookups and insertions on full, nearly full and overfull tables."""
import itertools
import numpy as np
from ..trace import *
from ..common import *
from .. import hashtab as H
from ..interp import lift_arr
from xtructure import HashTable
N = 8


def run(ck):
    ck.assume += ["the insertion kernels of the other platforms are interpreted from the programs lowered for them, program by program (ascending, reversed and interleaved orders; plain reads also as of kernel start), with a smaller share of the partitions",
                  "hash values are an uninterpreted function of the item; every loop of the program is unrolled under its own condition and must be left within budget + 2 iterations",
                  "table and batch sizes are representative small ones plus two large ones; fill levels, start buckets and steps are enumerated or spread over for them"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)] + [("large/0/1", {})] + H.platforms())


def fullish(cap, bs):
    """fill levels with at most two free slots"""
    return [f for f in itertools.product(range(bs + 1), repeat=cap) if sum(bs - x for x in f) <= 2]


def part(ck, label):
    if label.startswith("large"):
        return large(ck)
    for cap, bs, n, mp in ((1, 1, 2, None), (1, 3, 4, None), (2, 2, 3, None), (4, 1, 4, None), (4, 2, 5, None), (2, 5, 3, None), (8, 1, 4, None),
                           (4, 1, 3, 1), (4, 2, 3, 3), (2, 3, 3, 1), (8, 1, 3, 5), (4, 2, 4, 100)):
        sc = guard(ck, H.DEC, f"{cap} buckets of {bs}, budget {mp}", lambda: H.Scene(cap, bs, n, max_probes=mp))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        todo = []
        for fill in fullish(cap, bs):
            for pat in ([p for p in H.partitions(n) if max(p) in (0, n - 1)] if n > 3 else H.partitions(n)):
                for s in range(cap):
                    for t in range(1, cap, 2) or (0,):
                        todo.append((fill, pat, s, t))
        todo = H.spread(todo, 20000 if ck.thorough else 240)
        for q, (fill, pat, s, t) in enumerate(H.mine(label, todo)):
            m = max(pat) + 1
            starts = [(s + (i * q) % 3) % cap for i in range(m)]
            steps = [(t + 2 * (i * (q % 2))) % cap if cap > 1 else 0 for i in range(m)]
            mk = tuple((q + r) % 4 != 3 for r in range(n))
            inst = f"{cap} buckets of {bs}, budget {sc.mp}, fill {list(fill)}, rows {list(pat)}, mask {[int(b) for b in mk]}, starts {starts}, steps {steps}"
            with H.Part(sc, H.hashes_for(cap, starts, steps)):
                st = H.State(sc, fill)
                J.lookups(inst, st, pat, {})
                J.insertion(inst, "insert", st, pat[0], None)
                r = J.insertion(inst, "pinsert", st, pat, mk)
                if r is not None and q % 3 == 0:
                    J.insertion(inst + ", again", "pinsert", r[0], pat, (True,) * n, present=r[1])


def large(ck):
    for cap, bs, fill in ((512, 1, "full"), (4, 300, "full"), (512, 1, "one")) + (((1 << 12, 1, "full"),) if ck.thorough else ()):
        sc = H.Scene(cap, bs, 2)
        J = H.Judge(ck, sc)
        f = [bs] * cap
        if fill == "one":
            f[400] = 0
        with H.Part(sc, H.hashes_for(cap, (401, 401) if cap == 512 else (1, 1), (1, 1))):
            st = H.State(sc, f, fp_const=0)
            inst = f"{cap} buckets of {bs}, {fill}"
            J.lookups(inst, st, [0, 1], {})
            J.insertion(inst, "insert", st, 0, None)
            J.insertion(inst, "pinsert", st, [0, 1], [True, True])
