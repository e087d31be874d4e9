"""C26 unique_mask keeps one cheapest representative per group: every equality pattern, mask and weak order of costs of small batches."""
import contextlib, itertools
import numpy as np
from ..trace import *
from ..common import *
from ..interp import lift_arr, isobj
from .. import hashtab as H
from ..hashkinds import x64
from .c09 import weak_orders
import xtructure.numpy as xnp
from xtructure.core.xtructure_numpy.dataclass_ops.unique_ops import unique_mask as sized
from xtructure import xtructure_dataclass, FieldDescriptor as F
N = 8
ONE = "one row of each group of equal valid rows is selected"
BEST = "the selected row is the first of its group, or one of lowest cost"
INVALID = "a masked or infinitely costly row is never selected"
IDX = "the returned indices are the selected rows"
INV = "the inverse mapping sends every valid row to the entry of its group's selected row"
DEC = "equality of rows, mask and order of costs decide the selection"
ONES = 99


def run(ck):
    ck.assume += ["batch sizes are representative small ones; equality patterns, masks and weak orders of the costs are enumerated (spread evenly where large); row contents are opaque identities, one of which may be all ones",
                  "costs are not NaN"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)])


class Sc:
    def __init__(self, kind):
        G.reset()
        self.wide = kind in ("wide", "x64", "packed")
        self.kind = kind
        self.skel = H.Skeleton()
        self.ident = {}
        self.nb = {"one": 0, "wide": 9}.get(kind, 2)
        if kind == "one":
            self.K = xtructure_dataclass(type("UqOne", (), {"__annotations__": {"a": F.scalar(dtype=jnp.uint32)}, "__module__": __name__}))
        elif kind == "packed":
            self.K = xtructure_dataclass(type("UqPacked", (), {"__annotations__": {"a": F.scalar(dtype=jnp.uint8, bits=5, default=0), "b": F.tensor(dtype=jnp.uint8, shape=(2,), bits=7, fill_value=0)}, "__module__": __name__}), aggregate_bitpack=True)
        else:
            self.K = H.wide_cls(self.nb) if kind == "wide" else H.item_cls()
        self.dt = np.uint8 if kind == "packed" else np.uint32

    def val(self, n):
        return self.K(a=sds((n,), self.dt)) if self.kind == "one" else self.K(a=sds((n,), self.dt), b=sds((n, self.nb), self.dt))

    def item(self, i):
        if i not in self.ident:
            if i == ONES:
                self.ident[i] = (G.const(H.M32, np.uint32), [G.const(H.M32, np.uint32)] * self.nb)
            elif self.kind == "one":
                self.ident[i] = (G.src("identity", (i,), self.dt), [])
            else:
                r = None if self.kind != "packed" else (0, 31 if self.nb == 0 else 127)
                b = [G.src("common.b", (q,), self.dt, rng=r) for q in range(self.nb - 1)] + [G.src("identity", (i,), self.dt, rng=r)]
                self.ident[i] = (G.src("common.a", (), self.dt, rng=None if r is None else (0, 31)), b)
        return self.ident[i]


def variants(thorough):
    """(kind, n, cost dtype, mask given, options)"""
    J = dict(return_index=True, return_inverse=True)
    yield "words", 3, None, True, J
    yield "words", 3, "float32", True, J
    yield "words", 3, "float32", False, dict(J, size=3)
    yield "words", 4, None, True, dict(J, size=4, fill_value=-1)
    yield "words", 4, "float16", True, dict(return_index=True, size=2)
    yield "words", 3, None, False, {}
    yield "words", 4, "float32", True, {}
    yield "words", 3, "bfloat16", True, dict(return_inverse=True, return_index=True, size=5, fill_value=7)
    yield "words", 1, "float32", True, J
    yield "words", 3, "float32", True, dict(J, batch_len=3)
    yield "words", 3, None, True, dict(J, key_fn="b")
    yield "one", 3, "float32", True, J
    yield "one", 4, None, True, J
    yield "wide", 3, "float32", True, J
    yield "wide", 3, None, True, J
    yield "x64", 3, "float32", True, J
    yield "packed", 3, None, True, J
    yield "packed", 3, "float32", True, {}


def part(ck, label):
    lim = 20000 if ck.thorough else 400
    for kind, n, kdt, masked, opt in variants(ck.thorough):
        with (x64() if kind == "x64" else contextlib.nullcontext()):
            sc = Sc(kind)
            o = dict(opt)
            if o.get("key_fn") == "b":
                o["key_fn"] = lambda x: x.b
            f0 = sized if "size" in o else xnp.unique_mask
            fn = lambda v, *a: f0(v, **({"key": a[0]} if kdt else {}), **({"filled": a[-1]} if masked else {}), **o)
            args = [sc.val(n)] + ([sds((n,), jnp.dtype(kdt))] if kdt else []) + ([sds((n,), bool)] if masked else [])
            names = ["v"] + (["k"] if kdt else []) + (["m"] if masked else [])
            base = f"{kind} {n} rows, costs {kdt}, {'mask' if masked else 'no mask'}, {opt}"
            P = guard(ck, DEC, base, lambda: Prog(fn, args, names))
            if P is None:
                continue
            todo = []
            for pat in H.partitions(n):
                for mk in (itertools.product((True, False), repeat=n) if masked else [(True,) * n]):
                    for ko in (weak_orders(n) if kdt else [None]):
                        for inf in ((False, True) if kdt else (False,)):
                            for ones in ((None, 0, max(pat)) if kind in ("words", "one") else (None,)):
                                for alike in ((), ((0, 1),), ((0, 1), (0, max(pat))))[:(3 if max(pat) > 1 else 2 if max(pat) else 1) if kind in ("wide", "x64") else 1]:
                                    todo.append((pat, mk, ko, inf, ones, alike))
            for q, t in enumerate(H.mine(label, H.spread(todo, lim))):
                one(ck, sc, P, base, n, kdt, masked, opt, *t, q)


def one(ck, sc, P, base, n, kdt, masked, opt, pat, mk, ko, inf, ones, alike, q):
    w = where_of(xnp.unique_mask)
    inst = f"{base}: rows {list(pat)}, mask {[int(b) for b in mk]}, costs {ko}{' the largest infinite' if inf else ''}{'' if ones is None else f', row content {ones} all ones'}{f', equal signatures of contents {alike}' if alike else ''}"
    ids = [ONES if i == ones else i for i in pat]
    keys = None
    if kdt:
        dt = jnp.dtype(kdt)
        keys = {}
        for v in sorted(set(ko)):
            keys[v] = G.const(np.inf, dt) if inf and v == max(ko) else G.src("cost", (v,), dt)
    with H.Part(sc, {}, (lambda i: -i) if q % 2 else None, {x: v for v, x in (keys or {}).items()}, alike=alike):
        inp = {"v.a": obj([sc.item(i)[0] for i in ids])}
        if sc.nb:
            inp["v.b"] = obj([sc.item(i)[1] for i in ids])
        if kdt:
            inp["k"] = obj([keys[v] for v in ko])
        I = Interp()
        I.record = False
        try:
            R = P.run(fixed={"m": np.array(mk)} if masked else None, inputs=inp, interp=I)
        except TraceError as e:
            ck.crash(DEC, inst, e)
            return
    ck.eqns += I.eqns; ck.configs += 1
    ck.funcs |= {f for f in I.funcs if f[0] != "?"}
    outs = [o for o in R.flat]
    if any(isobj(o) for o in outs):
        ck.ob(DEC, inst, False, "the result depends on " + next(G.show(x) for o in outs if isobj(o) for x in lift_arr(o).reshape(-1) if not G.is_const(x)), w)
        return
    ck.ob(DEC, inst, True)
    outs = [np.asarray(o) for o in outs]
    mask = outs.pop(0)
    valid = [mk[r] and not (inf and ko[r] == max(ko)) for r in range(n)]
    groups = {}
    for r in range(n):
        if valid[r]:
            groups.setdefault(pat[r], []).append(r)
        else:
            ck.ob(INVALID, inst, not mask[r], f"row {r} is selected", w)
    sel = {}
    for i, rs in groups.items():
        s = [r for r in rs if mask[r]]
        ck.ob(ONE, inst, len(s) == 1, f"of the equal rows {rs} the rows {s} are selected", w)
        if len(s) != 1:
            return
        sel[i] = s[0]
        best = rs[:1] if ko is None else [r for r in rs if ko[r] == min(ko[t] for t in rs)]
        ck.ob(BEST, inst, s[0] in best, f"of the equal rows {rs} row {s[0]} is selected instead of {best}", w)
    chosen = sorted(sel.values())
    idx = None
    if opt.get("return_index"):
        idx = [int(v) for v in outs.pop(0)]
        size = opt.get("size", n)
        fill = opt.get("fill_value", 0 if "size" in opt else n)
        c = min(size, len(chosen))
        good = len(idx) == size and len(set(idx[:c])) == c and set(idx[:c]) <= set(chosen) and all(v == fill for v in idx[c:])
        ck.ob(IDX, inst, good, f"indices {idx} for the selected rows {chosen} (padding {fill})", w)
        if not good:
            return
    if opt.get("return_inverse"):
        inv = [int(v) for v in outs.pop(0)]
        for r in range(n):
            if valid[r] and (idx is None or len(idx) >= len(chosen)):
                good = 0 <= inv[r] < len(chosen) and (idx is None or idx[inv[r]] == sel[pat[r]])
                ck.ob(INV, inst, good, f"row {r} maps to entry {inv[r]} of {idx}; its group is represented by row {sel[pat[r]]}", w)


def obj(x):
    a = np.empty((len(x),) + ((len(x[0]),) if isinstance(x[0], list) else ()), dtype=object)
    for k, v in enumerate(x):
        a[k] = v
    return a
