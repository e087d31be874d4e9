"""C09 duplicate rows collapse to one representative: every equality pattern, mask and weak order of costs of small batches."""
import itertools
import numpy as np
from ..common import *
from .. import hashtab as H

MODES = [("safe", {}, 4), ("lax_unstable", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable"}, 1), ("lax_stable", {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_stable"}, 1),
         ("exact", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}, 3), ("fast", {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "fast"}, 1)]


def run(ck):
    ck.assume += ["batch sizes are representative small ones; equality patterns, masks, weak orders of the costs and collisions of hash pairs and row signatures are enumerated for them",
                  "costs are not NaN; distinct wide rows have distinct 128-bit signatures unless the partition makes them collide"]
    ck.fan([(f"{m}/{k}/{n}", e) for m, e, n in MODES for k in range(n)] + [("wide/0/1", {})] + [("wide exact/0/1", MODES[3][1])])


def weak_orders(n):
    out = set()
    for c in itertools.product(range(n), repeat=n):
        m = {v: k for k, v in enumerate(sorted(set(c)))}
        out.add(tuple(m[v] for v in c))
    return sorted(out)


def part(ck, label):
    mode = label.split("/")[0]
    main = mode in ("safe", "exact")
    wide = mode.startswith("wide")
    lim = (20000 if ck.thorough else 600) if main else (3000 if ck.thorough else 150)
    for n, key in [(3, None), (4, None), (3, "float32"), (3, "int32"), (4, "float32"), (3, "uint32"), (3, "float16"), (2, "int8"), (1, None), (1, "float32")]:
        if wide and n == 4:
            continue
        sc = guard(ck, H.DEC, f"{mode} batch of {n}, costs {key}", lambda: H.Scene(2, 3, n, key=key, wide=wide))
        if sc is None:
            continue
        J = H.Judge(ck, sc)
        todo = []
        for pat in H.partitions(n):
            m = max(pat) + 1
            for mk in itertools.product((True, False), repeat=n):
                for ko in (weak_orders(n) if key else [None]):
                    todo.append((pat, mk, ko))
        for q, (pat, mk, ko) in enumerate(H.mine(label, H.spread(todo, lim))):
            starts = [(i * (q % 2)) % 2 for i in range(max(pat) + 1)]
            cfg = ((0, 1) if q % 3 else (3, 1), pat, starts, 1, mk)
            keys = None
            if ko is not None:
                keys = {G.src("cost", (k,), np.dtype(key)): k for k in range(n)}
                if q % 4 == 1 and key != "uint32":         # the largest cost is the largest value of the type
                    top = G.const(np.inf if G.is_float(np.dtype(key)) else np.iinfo(key).max, np.dtype(key))
                    keys = {(top if k == max(ko) else x): k for x, k in keys.items()}
            H.run_batch(J, sc, cfg, look=False, history=q % 5 == 0, collide=(q % 3 == 2), alike=wide and q % 2 == 0, q=q, keys=keys, keyrank=ko)
