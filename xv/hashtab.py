"""Hash-table analyses: the hash of an item is an uninterpreted function, item contents are opaque identities.

A *scene* fixes a table geometry and lowers the table's operations once.  A *state* assigns an identity to every used slot
(unused slots and every fingerprint that is not an identity's own stay symbolic) and fill levels.  The hash value of an
identity is a value number of the analysed `hash_pair`; a partition assumes it equal to a constant, so that start bucket,
probe step and collisions range over the partition instead of being computed from data.  Distinct identities agree in every
field element but one (their order is part of the partition); equality of items is never computed from values.
"""
import itertools, os
import numpy as np
from .trace import *
from .common import *
from .interp import lift_arr, isobj, Unsupported, Undecided
from xtructure import HashTable, xtructure_dataclass, FieldDescriptor as F

SEED = 7
M32 = (1 << 32) - 1


def item_cls():
    return xtructure_dataclass(type("HtItem", (), {"__annotations__": {
        "a": F.scalar(dtype=jnp.uint32), "b": F.tensor(dtype=jnp.uint32, shape=(2,))}, "__module__": __name__}))


def wide_cls(n=9):
    return xtructure_dataclass(type("HtWide", (), {"__annotations__": {
        "a": F.scalar(dtype=jnp.uint32), "b": F.tensor(dtype=jnp.uint32, shape=(n,))}, "__module__": __name__}))


def abstract_idx(shape):
    from xtructure.hashtable.types import HashIdx
    return HashIdx(index=sds(shape, np.uint32))


class Scene:
    def __init__(self, cap, bs, n=0, key=None, max_probes=None, wide=False, mask=True, seed=SEED):
        G.reset()
        self.cap, self.bs, self.n, self.key, self.wide, self.mask, self.seed = cap, bs, n, key, wide, mask, seed
        self.mp = max_probes if max_probes is not None else cap * bs
        self.K = K = wide_cls() if wide else item_cls()
        self.nb = 9 if wide else 2
        self.t = abstract(HashTable.build, K, seed, cap * bs, bs, 1, max_probes)
        self.x = K(a=sds((), np.uint32), b=sds((self.nb,), np.uint32))
        self.X = K(a=sds((n,), np.uint32), b=sds((n, self.nb), np.uint32))
        self.slots = int(self.t.fingerprints.shape[0])
        self.progs = {}
        self.ident = {}
        self.skel = Skeleton()
        self.hashed = {}

    def prog(self, kind):
        p = self.progs.get(kind)
        if p is None:
            t, x, X, n = self.t, self.x, self.X, self.n
            m = sds((n,), bool)
            if kind == "insert":
                p = Prog(lambda t, x: t.insert(x), (t, x), ["t", "x"])
            elif kind == "lookup":
                p = Prog(lambda t, x: t.lookup(x), (t, x), ["t", "x"])
            elif kind == "bucket":
                p = Prog(lambda t, x: t.lookup_bucket(x), (t, x), ["t", "x"])
            elif kind == "plookup":
                p = Prog(lambda t, x, m: t.lookup_parallel(x, m), (t, X, m), ["t", "x", "m"])
            elif kind == "pinsert":
                if self.key is not None:
                    p = Prog(lambda t, x, m, k: t.parallel_insert(x, m, k), (t, X, m, sds((n,), self.key)), ["t", "x", "m", "k"])
                else:
                    p = Prog(lambda t, x, m: t.parallel_insert(x, m), (t, X, m), ["t", "x", "m"])
            elif kind == "pinsert_nomask":
                p = Prog(lambda t, x: t.parallel_insert(x), (t, X), ["t", "x"])
            elif kind == "plookup_nomask":
                p = Prog(lambda t, x: t.lookup_parallel(x), (t, X), ["t", "x"])
            elif kind == "pinsert_scalar":
                p = Prog(lambda t, x, m: t.parallel_insert(x, m), (t, X, sds((), bool)), ["t", "x", "m"])
            elif kind == "plookup_scalar":
                p = Prog(lambda t, x, m: t.lookup_parallel(x, m), (t, X, sds((), bool)), ["t", "x", "m"])
            elif kind == "getitem":
                p = Prog(lambda t, i: t[i], (t, abstract_idx(())), ["t", "i"])
            elif kind == "getitems":
                p = Prog(lambda t, i: t[i], (t, abstract_idx((n,))), ["t", "i"])
            elif kind == "hash":
                p = Prog(lambda x: x.hash_pair(self.seed), (x,), ["x"])
            else:
                raise KeyError(kind)
            self.progs[kind] = p
        return p

    def item(self, i):
        """source nodes of identity i: every identity shares all elements but one"""
        r = self.ident.get(i)
        if r is None:
            b = np.empty((self.nb,), dtype=object)
            for q in range(self.nb - 1):
                b[q] = G.src("common.b", (q,), np.uint32)
            b[self.nb - 1] = G.src("identity", (i,), np.uint32)
            r = self.ident[i] = (G.src("common.a", (), np.uint32), b)
        return r

    def hash(self, i):
        """value numbers of the hash pair of identity i"""
        r = self.hashed.get(i)
        if r is None:
            a, b = self.item(i)
            with G.partition():
                R = self.prog("hash").run(inputs={"x.a": a, "x.b": b})
            r = self.hashed[i] = tuple(R.outs[k][0].reshape(-1)[0] for k in "01")
        return r


class Skeleton:
    """f for a value number f(i) that depends on exactly one identity i (and otherwise only on what all items share)"""
    COMM = ("lin", "xor", "and", "or", "mul", "max", "min")

    def __init__(self):
        self.memo, self.table = {}, {}

    def __call__(self, n):
        for m in self._post(n):
            self.memo[m.id] = self._of(m)
        return self.memo[n.id]

    def _post(self, n):
        st = [(n, False)]
        while st:
            m, done = st.pop()
            if m.id in self.memo:
                continue
            if done:
                yield m
            else:
                st.append((m, True))
                st.extend((c, False) for c in G.children(m))

    def _id(self, k):
        return self.table.setdefault(k, len(self.table))

    def _of(self, n):
        if n.op == "src" and n.args[0] == "identity":
            return self._id(("identity",)), frozenset([n.args[1][0]])
        if not G.children(n):
            return self._id(("leaf", n.id)), frozenset()
        ids = set()

        def go(a):
            if isinstance(a, G.Node):
                k, i = self.memo[a.id]
                ids.update(i)
                return ("n", k)
            if isinstance(a, tuple):
                return tuple(go(b) for b in a)
            return a
        t = go(n.args)
        if n.op in self.COMM:
            t = tuple(tuple(sorted(b, key=repr)) if isinstance(b, tuple) else b for b in t) if n.op == "lin" else tuple(sorted(t, key=repr))
        return self._id((n.op, t, n.dtype)), frozenset(ids)


class Part(G.partition):
    """hash values of identities + order of identities (rank), optional order of extra key nodes.
    `alike`: identities whose row signatures (any f(i) except i itself) coincide, though the items differ"""
    def __init__(self, scene, hashes, rank=None, keys=None, alike=()):
        sub = {}
        for i, (p, s) in hashes.items():
            P, S = scene.hash(i)
            sub[P] = G.const(np.uint32(p), np.uint32)
            sub[S] = G.const(np.uint32(s), np.uint32)
        rank = rank or (lambda i: i)
        keys = keys or {}
        wide = scene.wide

        def val(n):
            if n in keys:
                return ("k", keys[n])
            if n.op == "src" and n.args[0] == "identity":
                return ("i", rank(n.args[1][0]))
            if n.op == "src" and n.args[0].startswith("common."):
                return ("i", -(1 << 40) + len(n.args[0]) + (n.args[1][0] if n.args[1] else 0))
            if n.op == "const" and n.dtype == np.uint32 and int(G.cval(n)) == M32:
                return ("i", 1 << 40)          # identities are taken to differ from the all-ones word
            if n.op == "const" and keys and G.is_float(n.dtype) and float(G.cval(n)) == np.inf:
                return ("k", 1 << 40)
            if n.op == "const" and keys and n.dtype.kind in "iu" and int(G.cval(n)) == np.iinfo(n.dtype).max:
                return ("k", 1 << 40)
            return None

        cls = {j: i for i, j in alike}

        def sig(n):
            if n.dtype is None or n.dtype.kind != "u" or n.op in ("src", "const") and n.dtype == np.uint32:
                return None
            k, ids = scene.skel(n)
            return (k, next(iter(ids))) if len(ids) == 1 else None

        def order(op, a, b):
            if wide and (a.op not in ("src", "const") or b.op not in ("src", "const")):
                x, y = sig(a), sig(b)
                if x and y:
                    if x[0] != y[0]:
                        return None
                    i, j = cls.get(x[1], x[1]), cls.get(y[1], y[1])
                    return i == j if op == "eq" else rank(i) < rank(j)
                top = lambda n: n.op == "const" and n.dtype.kind == "u" and int(G.cval(n)) == np.iinfo(n.dtype).max
                if x and top(b):
                    return op == "lt"
                if y and top(a):
                    return False
                return None
            if op == "eq" and "another" in (a.args[0] if a.op == "src" else None, b.args[0] if b.op == "src" else None):
                return a is b
            x, y = val(a), val(b)
            if x is None or y is None or x[0] != y[0]:
                return None
            return x[1] == y[1] if op == "eq" else x[1] < y[1]
        super().__init__(sub, order)


class State:
    """fill: per bucket counts; put: {(bucket, slot): identity} for used slots (others foreign identities, symbolic fingerprints)"""
    def __init__(self, scene, fill, put=None, fps=None, fp_const=None, near=None, stale=None):
        """near: {slot: (identity, component)} used slots that differ from the identity in that component only;
        stale: {slot: identity} unused slots whose leftover content equals the identity"""
        near, stale = near or {}, stale or {}
        self.scene, self.fill, self.put = scene, list(fill), dict(put or {})
        sc = scene
        N, bs = sc.slots, sc.bs
        a = np.empty((N,), dtype=object)
        b = np.empty((N, sc.nb), dtype=object)
        fp = np.empty((N,), dtype=object)
        self.who = {}
        for k in range(N):
            bu, sl = divmod(k, bs)
            fp[k] = G.src("stored fingerprint", (k,), np.uint32) if fp_const is None else G.const(fp_const, np.uint32)
            if k in near or (k in stale and not (bu < sc.cap and sl < self.fill[bu])):
                i, c = near[k] if k in near else (stale[k], None)
                a[k], b[k] = sc.item(i)
                if c == 0:
                    a[k] = G.src("another", (k,), np.uint32)
                elif c is not None:
                    b[k, c - 1] = G.src("another", (k,), np.uint32)
            elif bu < sc.cap and sl < self.fill[bu]:
                i = self.put.get((bu, sl), 1000 + k)
                self.who[k] = i
                xa, xb = sc.item(i)
                a[k] = xa
                b[k] = xb
                if (bu, sl) in self.put and fps is not None:
                    fp[k] = fps[i]
            else:
                a[k] = G.src("stale.a", (k,), np.uint32)
                for q in range(sc.nb):
                    b[k, q] = G.src("stale.b", (k, q), np.uint32)
        self.a, self.b, self.fp = a, b, fp
        f = np.zeros((sc.cap + 1,), np.uint32)
        f[:sc.cap] = self.fill
        self.f = f
        self.size = np.asarray(f.sum(), np.uint32)      # a table's size is the number of entries its buckets hold
        self.occ = np.array([((1 << int(x)) - 1) & M32 for x in f], np.uint32)

    def inputs(self):
        return {"t.table.a": self.a, "t.table.b": self.b, "t.fingerprints": self.fp}

    def fixed(self):
        d = {"t.bucket_fill_levels": self.f, "t.size": self.size}
        if self.scene.bs <= 32:
            d["t.bucket_occupancy"] = self.occ
        return d


PLATFORM = os.environ.get("XV_BACKEND", "cpu")
SHARE = float(os.environ.get("XV_SHARE", "1"))
SCHED = [0]


def platforms(n=2, share=1 / 23):
    """worker processes which lower the same programs as on other platforms (kernels included)"""
    return [(f"{b} {k}/{n}", {"XV_BACKEND": b, "XV_SHARE": str(share)}) for b in ("gpu", "tpu") for k in range(n)]


def riffle(xs):
    return xs[1::2] + xs[0::2]


def call(scene, kind, st, idents, mask=None, keys=None, bound=None):
    sc = scene
    p = sc.prog(kind)
    I = Interp()
    I.guarded = bound if bound is not None else sc.mp + 2
    I.record = False
    if PLATFORM == "gpu":           # kernel programs run in parallel: rotate their order and how stale their plain reads are
        SCHED[0] += 1
        I.program_order = (None, "reverse", riffle)[SCHED[0] % 3]
        I.stale = SCHED[0] % 2 == 1
    inp = st.inputs()
    fx = st.fixed()
    if kind in ("insert", "lookup", "bucket"):
        inp["x.a"], inp["x.b"] = sc.item(idents)
    else:
        a = np.empty((sc.n,), dtype=object)
        b = np.empty((sc.n, sc.nb), dtype=object)
        for r, i in enumerate(idents):
            a[r], b[r] = sc.item(i)
        inp["x.a"], inp["x.b"] = a, b
        if mask is not None:
            fx["m"] = np.asarray(mask)
        if keys is not None:
            inp["k"] = keys
    R = p.run(fixed=fx, inputs=inp, interp=I)
    R.I = I
    return R


# ------------------------------------------------------------------ states produced by the table's own operations
class After(State):
    """the table state an operation returned (used as the input of the next operation)"""
    def __init__(self, scene, R, prefix):
        self.scene = scene
        g = lambda n: R.outs[prefix + n][0]
        self.a, self.b, self.fp = lift_arr(g("table.a")), lift_arr(g("table.b")), lift_arr(g("fingerprints"))
        self.f, self.occ, self.size = g("bucket_fill_levels"), g("bucket_occupancy"), g("size")
        self.fill = [int(v) for v in self.f[:scene.cap]] if not isobj(self.f) else None
        self.who = {}

    def inputs(self):
        d = State.inputs(self)
        if isobj(self.size):
            d["t.size"] = self.size
        for n, v in (("t.bucket_fill_levels", self.f), ("t.bucket_occupancy", self.occ)):
            if isobj(v):
                d[n] = v
        return d

    def fixed(self):
        d = {} if isobj(self.f) else {"t.bucket_fill_levels": self.f}
        if not isobj(self.occ):
            d["t.bucket_occupancy"] = self.occ
        if not isobj(self.size):
            d["t.size"] = self.size
        return d


def conc(v):
    """known array, or None when the analysis did not decide it"""
    return None if isobj(v) else np.asarray(v)


def const_of(n):
    return G.cval(n).item() if G.is_const(n) else None


STOP = "an operation on the table ends within its probe budget"
DEC = "hash, fill levels and equality of items decide where an item goes"
USED = "a used slot keeps its item and fingerprint"
OWN = "every new entry gets a slot of its own, directly above the used slots of a bucket"
TOGETHER = "item, fingerprint, fill level and occupancy of a new entry are updated together"
SIZE = "the size grows by the number of new entries"
COUNT = "rows reported as inserted are the new entries"
REP = "one row of each group of equal rows is its representative"
INS = "exactly the representatives of items not in the table are inserted"
MASKED = "a masked row is neither inserted nor unique"
GROUPIDX = "every row of a group reports the index of the stored item"
FOUND = "an inserted item is found at its reported index by every form of lookup"
REACH = "an item is stored as long as the table has room"
FULL = "a table without room reports failure"
LOOKMISS = "an item that was never stored is not found"
ADDR = "a reported index addresses the item"

EQUAL = "found implies that the reported slot is used and holds an equal item"

MEM = "a reservation kernel touches only its buffers"
RULES = {"C07": {FOUND, DEC, REACH}, "C08": {USED, OWN, TOGETHER, DEC}, "C09": {REP, GROUPIDX, INS, DEC}, "C10": {MASKED, INS, DEC, REP, USED, OWN, SIZE, GROUPIDX},
         "C11": {SIZE, COUNT, TOGETHER, DEC}, "C12": {LOOKMISS, ADDR, INS, DEC, EQUAL}, "C34": {STOP, FULL, DEC}}


class Judge:
    def __init__(self, ck, scene, rules=None):
        self.ck, self.sc = ck, scene
        self.rules = rules or RULES[ck.pid]

    def ob(self, rule, inst, good, detail="", where=None):
        if rule in self.rules or (rule in (STOP, DEC, MEM) and not good):
            if PLATFORM != "cpu":
                inst = f"lowered for {PLATFORM}: {inst}"
            self.ck.ob(rule, inst, good, detail() if callable(detail) and not good else detail if not callable(detail) else "", where)
        return good

    def call(self, inst, kind, st, idents, mask=None, keys=None, where=None):
        sc = self.sc
        try:
            R = call(sc, kind, st, idents, mask, keys)
        except TraceError as e:
            self.ck.crash(DEC, inst, e)
            return None
        except Endless as e:
            from .interp import loc
            self.ck.ob(STOP, f"lowered for {PLATFORM}: {inst}" if PLATFORM != "cpu" else inst, False, f"{kind}: the loop still runs after {e.n} iterations (budget {sc.mp} probes)", loc(e.eqn))
            return None
        except Undecided as e:
            self.ck.ob(DEC, inst, False, f"{kind}: control of a kernel is not decided by the partition ({e})", where or where_of(getattr(HashTable, "parallel_insert")))
            return None
        except Exception as e:
            self.ck.undecided(inst, e)
            return None
        if R.I.oob:
            self.ob(MEM, inst, False, f"{kind}: a kernel {R.I.oob[0][2]}s outside its buffer", R.I.oob[0][1])
        self.ck.eqns += R.I.eqns
        self.ck.configs += 1
        self.ck.funcs |= {f for f in R.I.funcs if f[0] != "?"}
        self.ob(STOP, f"{inst} {kind}", True)
        return R

    # ---------------------------------------------------------------- one insertion, judged against the state before it
    def insertion(self, inst, kind, st, idents, mask, keys=None, keyrank=None, present=()):
        """`present`: {identity: flat slot} known to be stored.  Returns (state after, {identity: flat slot}) or None"""
        sc, bs, cap = self.sc, self.sc.bs, self.sc.cap
        single = kind == "insert"
        w = where_of(HashTable.insert if single else HashTable.parallel_insert)
        R = self.call(inst, kind, st, idents, mask if kind in ("pinsert", "pinsert_scalar") else None, keys)
        if R is None:
            return None
        rows = [idents] if single else list(idents)
        n = len(rows)
        filled = [True] * n if mask is None else ([bool(mask)] * n if np.ndim(mask) == 0 else [bool(q) for q in mask])
        inserted = conc(R.outs["1"][0])
        unique = inserted if single else conc(R.outs["2"][0])
        idx = conc(R.outs["2.index" if single else "3.index"][0])
        af = After(sc, R, "0.")
        for nm, v in (("inserted", inserted), ("unique", unique), ("fill levels", None if af.fill is None else 1), ("index", idx)):
            if v is None:
                o = {"inserted": "1", "unique": "2", "fill levels": "0.bucket_fill_levels", "index": "2.index" if single else "3.index"}[nm]
                self.ob(DEC, f"{inst}", False, f"{nm} depends on {G.show(next(x for x in lift_arr(R.outs[o][0]).reshape(-1) if not G.is_const(x)))}", w)
                return None
        inserted, unique, idx = inserted.reshape(-1), unique.reshape(-1), idx.reshape(-1)
        self.ob(DEC, inst, True)
        # ---- groups
        groups = {}
        for r, i in enumerate(rows):
            if filled[r]:
                groups.setdefault(i, []).append(r)
        reps = {}
        if not single:
            for i, rs in groups.items():
                best = rs if keyrank is None else [r for r in rs if keyrank[r] == min(keyrank[q] for q in rs)]
                sel = [r for r in rs if unique[r]]
                ok = len(sel) == 1 and (sel[0] in best if keyrank is not None else sel[0] == rs[0])
                self.ob(REP, inst, ok, lambda: f"rows {rs} are equal; representatives {sel}, allowed {best[:1] if keyrank is None else best}", w)
                reps[i] = sel[0] if len(sel) == 1 else rs[0]
            for r in range(n):
                if not filled[r]:
                    self.ob(MASKED, inst, not unique[r] and not inserted[r], lambda: f"row {r} is masked out but reported {'inserted' if inserted[r] else 'unique'}", w)
        else:
            reps = {rows[0]: 0}
        # ---- what was stored
        new = [i for i in groups if i not in present]
        room = sum(bs - f for f in st.fill) if st.fill is not None else 0
        for i, rs in groups.items():
            for r in rs:
                if i in present:
                    self.ob(INS, inst, not inserted[r], lambda: f"row {r} is already stored but reported inserted", w)
                elif r != reps[i]:
                    self.ob(INS, inst, not inserted[r], lambda: f"row {r} duplicates row {reps[i]} but is reported inserted", w)
        if len(new) <= room and sc.mp >= cap * bs:
            for i in new:
                self.ob(REACH, inst, inserted[reps[i]], lambda: f"row {reps[i]} is not inserted although {room} slots are free", w)
                self.ob(INS, inst, inserted[reps[i]], lambda: f"row {reps[i]} is new but not reported inserted", w)
        if room == 0:
            self.ob(FULL, inst, not inserted.any(), "an insertion into a full table is reported as done", w)
        at = {}
        for r in range(n):
            if inserted[r] and filled[r]:
                at[rows[r]] = int(idx[r])
        slots = list(at.values())
        old = st.fill
        ok = len(set(slots)) == len(slots) and all(0 <= k < cap * bs and old[k // bs] <= k % bs for k in slots)
        for bkt in range(cap):
            mine = sorted(k % bs for k in slots if k // bs == bkt)
            ok = ok and mine == list(range(old[bkt], old[bkt] + len(mine)))
        self.ob(OWN, inst, ok, lambda: f"new entries at slots {slots} (fill levels before {old}, bucket size {bs})", w)
        expf = list(old)
        for k in slots:
            if 0 <= k // bs < cap:
                expf[k // bs] += 1
        self.ob(TOGETHER, inst, af.fill == expf, lambda: f"fill levels {af.fill} instead of {expf}", w)
        self.ob(TOGETHER, inst, int(np.asarray(af.f)[cap]) == 0, "the fill level of the padding bucket changed", w)
        if bs <= 32:
            occ = conc(af.occ)
            exp = [(1 << f) - 1 for f in expf]
            self.ob(TOGETHER, inst, occ is not None and [int(v) for v in occ[:cap]] == exp, lambda: f"occupancy {af.occ} instead of {exp}", w)
        for i, k in at.items():
            if not 0 <= k < cap * bs:
                continue
            xa, xb = sc.item(i)
            self.ob(TOGETHER, inst, af.a[k] is xa and all(p is q for p, q in zip(af.b[k], xb)),
                    lambda: f"slot {k} holds {G.show(af.a[k])}, {[G.show(q) for q in af.b[k]]} instead of the inserted item {i}", w)
            self.ob(ADDR, inst, af.a[k] is xa and all(p is q for p, q in zip(af.b[k], xb)), lambda: f"index {k} does not address the inserted item {i}", w)
        for k in range(cap * bs):
            if k % bs < old[k // bs]:
                ok = af.a[k] is st.a[k] and af.fp[k] is st.fp[k] and all(p is q for p, q in zip(af.b[k], st.b[k]))
                self.ob(USED, inst, ok, lambda: f"used slot {k} changed: {G.show(st.b[k][-1])} -> {G.show(af.b[k][-1])}", w)
        total = len(slots)
        size0 = lift_arr(st.size).reshape(-1)[0]
        exp = G.binop("add", size0, G.const(total, np.uint32))
        got = lift_arr(af.size).reshape(-1)[0]
        self.ob(SIZE, inst, got is exp, lambda: f"size becomes {G.show(got)} instead of {G.show(exp)}", w)
        grown = sum(af.fill) - sum(old)
        self.ob(COUNT, inst, int(inserted.sum()) == grown == total, lambda: f"{int(inserted.sum())} rows reported inserted, {grown} entries added", w)
        where = dict(present)
        where.update(at)
        for i, rs in groups.items():
            if i in where:
                for r in rs:
                    self.ob(GROUPIDX, inst, int(idx[r]) == where[i], lambda: f"row {r} reports index {int(idx[r])}; the item is stored at {where[i]}", w)
                    if i in present:
                        self.ob(ADDR, inst, int(idx[r]) == where[i], lambda: f"row {r} reports index {int(idx[r])}; the item is stored at {where[i]}", w)
        return af, where, dict(inserted=inserted, unique=unique, idx=idx, R=R)

    # ---------------------------------------------------------------- lookups in a state reached by insertions
    def lookups(self, inst, st, idents, where, mask=None):
        sc = self.sc
        for i in dict.fromkeys(idents):
            R = self.call(inst, "lookup", st, i)
            if R is None:
                return
            self._look(f"{inst} lookup", R, "0.index", "1", None, i, where.get(i), where_of(HashTable.lookup))
        if sc.n == len(idents):
            R = self.call(inst, "plookup", st, idents, mask if mask is not None else [True] * sc.n)
            if R is None:
                return
            for r, i in enumerate(idents):
                if mask is None or mask[r]:
                    self._look(f"{inst} batched lookup", R, "0.index", "1", r, i, where.get(i), where_of(HashTable.lookup_parallel))
                else:
                    f = lift_arr(R.outs["1"][0]).reshape(-1)[r]
                    self.ob(LOOKMISS, f"{inst} batched lookup", f is G.false(), "a masked row is reported found", where_of(HashTable.lookup_parallel))

    def _look(self, inst, R, ki, kf, r, i, k, w):
        f = lift_arr(R.outs[kf][0]).reshape(-1)[r or 0]
        x = lift_arr(R.outs[ki][0]).reshape(-1)[r or 0]
        if k is None:
            self.ob(LOOKMISS, inst, f is G.false(), lambda: f"item {i} was never stored but found is {G.show(f)}", w)
        else:
            good = f is G.true() and const_of(x) == k
            self.ob(FOUND, inst, good, lambda: f"item {i} is stored at {k}; found is {G.show(f)}, index {G.show(x)}", w)
            self.ob(ADDR, inst, good, lambda: f"item {i} is stored at {k}; found is {G.show(f)}, index {G.show(x)}", w)


def hashes_for(cap, starts, steps, collide=()):
    """constant hash pairs per identity: start bucket and (secondary hash mod capacity) as given, other bits distinct;
    `collide`: pairs (i, j) whose hash pairs are equal"""
    h = {}
    for i, (s, t) in enumerate(zip(starts, steps)):
        h[i] = ((0x9E370000 + 0x010000 * i) & ~(cap - 1) & M32 | s, (0x51ED0000 + 0x030000 * i) & ~(cap - 1) & M32 | t)
    for i, j in collide:
        h[j] = h[i]
    return h


def partitions(n):
    """restricted growth strings: identity patterns of n rows"""
    def go(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from go(p + [k], max(m, k + 1))
    yield from go([], 0)


def mine(label, items):
    """deterministic share k of n of a partition list"""
    k, n = (int(q.split()[-1]) for q in label.split("/")[-2:])
    items = list(items)
    if SHARE < 1:               # a stride that is coprime to the sizes of the enumerated dimensions
        items = items[k * 5 % 11::int(1 / SHARE)]
        n, k = 1, 0
    return [x for q, x in enumerate(items) if q % n == k]


def spread(items, limit):
    """at most `limit` members of a partition list, evenly spread (deterministic)"""
    items = list(items)
    if len(items) <= limit:
        return items
    step = len(items) / limit
    return [items[int(q * step)] for q in range(limit)]


def batch_family(cap, bs, n, masks=False):
    """(fill, identity pattern, starts, step, mask): the complete control partition of one batched insertion"""
    out = []
    for pat in partitions(n):
        m = max(pat) + 1
        for starts in itertools.product(range(cap), repeat=m):
            for step in range(1, cap, 2) or (0,):
                for w, fill in enumerate(itertools.product(range(bs + 1), repeat=cap)):
                    st = tuple((step + 2 * i) % cap for i in range(m)) if cap > 2 and m > 1 and w % 2 else step
                    for mk in (itertools.product((True, False), repeat=n) if masks else [(True,) * n]):
                        out.append((fill, pat, starts, st, mk))
    return out


def crowded(cap, bs, n):
    """rows without duplicates that compete for the last free slots with different steps"""
    out = []
    for fill in itertools.product(range(bs + 1), repeat=cap):
        free = sum(bs - f for f in fill)
        if not n - 1 <= free <= n + 1:
            continue
        for starts in itertools.product(range(cap), repeat=n):
            for steps in itertools.product(range(1, cap, 2) or (0,), repeat=n):
                out.append((fill, tuple(range(n)), starts, steps, (True,) * n))
    return out


def displaced(cap):
    """a late row can take the slot of an early winner which then has to go all the way round"""
    W = list(range(cap - 2))
    return ((0,) * cap, tuple(range(cap)), tuple(W + [0, cap - 2]), tuple([1] * (cap - 1) + [cap - 1]), (True,) * cap)


def run_batch(J, sc, cfg, look=True, history=True, collide=False, q=0, keys=None, keyrank=None, alike=False):
    """one batched insertion judged, optionally followed by a second one with the rows in another order and by lookups"""
    fill, pat, starts, step, mk = cfg
    m = max(pat) + 1
    h = hashes_for(sc.cap, starts, [step] * m if isinstance(step, int) else step)
    if collide and m > 1:
        h[1] = h[0]
    rank = (lambda i: -i) if q % 2 else None
    inst = f"{sc.cap} buckets of {sc.bs}, fill {list(fill)}, rows {list(pat)}, mask {[int(b) for b in mk]}, starts {list(starts)}, step {step if isinstance(step, int) else list(step)}" + \
           (", equal hash pairs of rows 0/1" if collide else "") + (f", costs {list(keyrank)}" if keyrank is not None else "")
    alike = alike and m > 1
    if alike:
        inst += ", equal signatures of rows 0/1"
    with Part(sc, h, rank, keys, [(0, 1)] if alike else ()):
        st = State(sc, fill)
        kn = None
        if keyrank is not None:
            kn = np.empty((sc.n,), dtype=object)
            inv = {v: k for k, v in (keys or {}).items()}
            for r in range(sc.n):
                kn[r] = inv[keyrank[r]]
        r = J.insertion(inst, "pinsert", st, pat, mk, kn, keyrank)
        if r is None:
            return None
        if look:
            J.lookups(inst, r[0], pat, r[1])
        if history:
            rev = tuple(reversed(pat))
            r2 = J.insertion(inst + ", rows again in reverse", "pinsert", r[0], rev, (True,) * sc.n, kn, keyrank, present=r[1])
            if r2 is not None and q % 4 == 0:
                i = pat[0]
                J.insertion(inst + ", then one row again", "insert", r2[0], i, None, present=r2[1])
    return r
