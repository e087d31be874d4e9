"""Priority queue analyses (C03-C05): keys are opaque values whose order type is partitioned, values are provenance tokens of the
pair they belong to.  Under one order type every comparison, sort, branch and index of the queue's IR is decided, and what remains
is where each token ends up."""
import itertools, random
import numpy as np
from .trace import *
from .common import *
from .interp import lift_arr, isobj
from . import graph as G
from xtructure import BGPQ, xtructure_dataclass, FieldDescriptor as F

CONS = "an insertion within capacity keeps every held pair and adds every given pair"
KEEP = "a deletion removes exactly the pairs it returns"
DUP = "no pair is invented or duplicated"
PAIR = "a key keeps the value it was inserted with, in every field"
ROOT = "a deletion returns the smallest keys held, in ascending order"
FRONT = "the front block holds the smallest keys held"
BLOCK = "every block is sorted"
ORD = "no block holds a key larger than one in a block below it"
SIZE = "the size is the number of finite keys held"
DEC = "order of the keys and fill state decide where every pair goes"
DT = "operations keep the types and shapes of the queue"
RULES = {"C03": {CONS, KEEP, DUP, PAIR, DT}, "C04": {ROOT, FRONT, BLOCK, ORD}, "C05": {SIZE}}


@xtructure_dataclass
class In:
    p: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class Val:
    u: F.scalar(dtype=jnp.uint32)
    v: F.tensor(dtype=jnp.float32, shape=(2,))
    n: F.scalar(dtype=In)


LEAVES = [("u", (), np.uint32), ("v", (2,), np.float32), ("n.p", (), np.uint8)]


class Scene:
    def __init__(self, bs, total, kdt="float32"):
        G.reset()
        self.bs, self.kdt = bs, jnp.dtype(kdt)
        self.q = abstract(BGPQ.build, total, bs, Val, self.kdt)
        self.branch = self.q.key_store.shape[0]
        self.inf = G.const(np.inf, self.kdt)
        self.keys, self.progs = {}, {}
        self.name = f"block size {bs}, {self.branch} blocks, {self.kdt.name} keys"

    def key(self, r):
        """key of rank r (equal keys share one node)"""
        if r not in self.keys:
            self.keys[r] = G.src("key", (r,), self.kdt)
        return self.inf if r is None else self.keys[r]

    def prog(self, kind, n=None):
        k = (kind, n)
        if k not in self.progs:
            if kind == "insert":
                vs = jax.eval_shape(lambda: Val.default((n,)))
                self.progs[k] = Prog(lambda q, a, b: q.insert(a, b), (self.q, sds((n,), self.kdt), vs), ["q", "k", "v"])
            elif kind == "delete":
                self.progs[k] = Prog(lambda q: q.delete_mins(), (self.q,), ["q"])
            else:
                self.progs[k] = Prog(lambda q: q.size, (self.q,), ["q"])
        return self.progs[k]

    def partition(self, ranks):
        """order type: keys compare as their ranks; all of them are finite"""
        where = {self.key(r): r for r in ranks}
        fin = {}
        for r in ranks:
            fin[G.unop("isfinite", self.key(r))] = G.const(True, G.BOOL)
        top = lambda n: n.op == "const" and G.is_float(n.dtype) and float(G.cval(n)) == np.inf
        bot = lambda n: n.op == "const" and G.is_float(n.dtype) and float(G.cval(n)) == -np.inf

        def val(n):
            return where[n] if n in where else np.inf if top(n) else -np.inf if bot(n) else None

        def order(op, a, b):
            x, y = val(a), val(b)
            if x is None or y is None:
                return None
            return x == y if op == "eq" else x < y
        return G.partition(fin, order)

    def tokens(self, ids):
        """value leaves of the pairs with these ids (an id may be None: content of a row that holds nothing)"""
        out = {}
        for f, sh, dt in LEAVES:
            a = np.empty((len(ids),) + sh, dtype=object)
            for j, i in enumerate(ids):
                for ix in np.ndindex(*sh):
                    a[(j,) + ix] = G.src(f"value.{f}", (i,) + ix, dt)
            out[f] = a
        return out

    def state(self, rows, buf, heap_size):
        """queue whose blocks hold `rows` (lists of (rank, id) or None) and whose buffer holds `buf`"""
        inp = {}
        pad = itertools.count(10000)
        put = lambda c: (None, next(pad)) if c is None else c
        cells = [put(c) for r in rows for c in r]
        b = [put(c) for c in buf]
        ks = np.empty((len(cells),), dtype=object)
        for j, (r, _) in enumerate(cells):
            ks[j] = self.key(r)
        inp["q.key_store"] = ks.reshape(self.branch, self.bs)
        kb = np.empty((len(b),), dtype=object)
        for j, (r, _) in enumerate(b):
            kb[j] = self.key(r)
        inp["q.key_buffer"] = kb
        for f, a in self.tokens([i for _, i in cells]).items():
            inp["q.val_store." + f] = a.reshape((self.branch, self.bs) + a.shape[1:])
        for f, a in self.tokens([i for _, i in b]).items():
            inp["q.val_buffer." + f] = a
        fixed = {"q.heap_size": np.asarray(heap_size, self.q.heap_size.dtype), "q.buffer_size": np.asarray(sum(c is not None for c in buf), self.q.buffer_size.dtype)}
        return inp, fixed

    def chain(self, R, pre):
        """the resulting queue of an operation as input of the next"""
        inp, fixed = {}, {}
        for p, (o, s) in R.outs.items():
            if not p.startswith(pre):
                continue
            nm = "q." + p[len(pre):]
            (inp if isobj(o) else fixed)[nm] = o
        return inp, fixed


class Trouble(Exception):
    pass


class Held:
    """concrete reading of an abstract queue: where which pair is"""
    def __init__(self, sc, inp, fixed):
        g = lambda n: lift_arr(inp["q." + n] if "q." + n in inp else np.asarray(fixed["q." + n]))
        self.sc = sc
        ks, kb = g("key_store"), g("key_buffer")
        self.rows = [[self.rank(ks[i, j]) for j in range(ks.shape[1])] for i in range(ks.shape[0])]
        self.buf = [self.rank(k) for k in kb]
        self.ids, self.split = [], []
        for i in range(ks.shape[0]):
            for j in range(ks.shape[1]):
                if self.rows[i][j] is not None:
                    self.ids.append((self.rows[i][j], self.pair({f: g("val_store." + f)[i, j] for f, _, _ in LEAVES})))
        for j in range(len(kb)):
            if self.buf[j] is not None:
                self.ids.append((self.buf[j], self.pair({f: g("val_buffer." + f)[j] for f, _, _ in LEAVES})))

    def rank(self, n):
        if n is self.sc.inf:
            return None
        if n.op == "src" and n.args[0] == "key":
            return n.args[1][0]
        raise Trouble(f"a stored key is {G.show(n)}")

    @staticmethod
    def pair(leaves):
        """id of the pair all leaves of one value belong to"""
        ids = set()
        for f, sh, dt in LEAVES:
            a = lift_arr(leaves[f])
            for ix in np.ndindex(*sh):
                n = a[ix]
                if n.op != "src" or n.args[0] != f"value.{f}" or tuple(n.args[1][1:]) != ix:
                    return f"{f}{list(ix)} = {G.show(n)}"
                ids.add(n.args[1][0])
        return ids.pop() if len(ids) == 1 else f"a mixture of the values of pairs {sorted(ids)}"


class Judge:
    def __init__(self, ck, sc):
        self.ck, self.sc = ck, sc
        self.rules = RULES[ck.pid]
        self.w = {k: where_of(getattr(BGPQ, k)) for k in ("insert", "delete_mins", "size")}

    def ob(self, rule, inst, good, detail="", w=None):
        if rule in self.rules or rule == DEC:
            self.ck.ob(rule, inst, good, detail, w)
        return good

    def run(self, kind, inst, inp, fixed, n=None):
        try:
            P = self.sc.prog(kind, n)
        except TraceError as e:
            self.ck.crash(DEC, inst, e)
            return None
        I = Interp()
        I.record = False
        R = P.run(fixed=fixed, inputs=inp, interp=I)
        ck = self.ck
        ck.eqns += I.eqns; ck.configs += 1
        ck.funcs |= {f for f in I.funcs if f[0] != "?"}
        return R

    def read(self, inst, R, pre, w):
        """queue after an operation, or None when it cannot be read"""
        inp, fixed = self.sc.chain(R, pre)
        ok = True
        for p, l in leaf_paths(self.sc.q):
            o, s = R.outs[pre + p]
            ok = ok and tuple(s.shape) == tuple(l.shape) and s.dtype == l.dtype
            if p in ("heap_size", "buffer_size") and isobj(o):
                self.ob(DEC, inst, False, f"{p} is {G.show(lift_arr(o).reshape(-1)[0])}", w)
                return None
        self.ob(DT, inst, ok, "the queue's leaves change type or shape", w)
        if not ok:
            return None
        try:
            h = Held(self.sc, inp, fixed)
        except Trouble as t:
            self.ob(DEC, inst, False, str(t), w)
            return None
        self.ob(DEC, inst, True, "", w)
        bad = [(r, i) for r, i in h.ids if isinstance(i, str)]
        if not self.ob(PAIR, inst, not bad, f"the key of rank {bad[0][0]} is stored with {bad[0][1]}" if bad else "", w):
            return None
        return inp, fixed, h

    def settled(self, inst, h, w):
        """order of blocks after an operation"""
        sc = self.sc
        num = lambda r: np.inf if r is None else r
        rows = [[num(r) for r in row] for row in h.rows]
        for i, row in enumerate(rows):
            if not self.ob(BLOCK, inst, row == sorted(row), f"block {i} holds ranks {row}", w):
                return
        for i in range(1, len(rows)):
            p = (i - 1) // 2
            if not self.ob(ORD, inst, rows[p][-1] <= rows[i][0], f"block {p} holds ranks {rows[p]} above block {i} with {rows[i]}", w):
                return
        held = sorted(r for r, _ in h.ids)
        front = (held + [np.inf] * sc.bs)[:sc.bs]
        self.ob(FRONT, inst, rows[0] == front, f"the front block holds ranks {rows[0]}, the smallest held are {front}", w)

    def size(self, inst, inp, fixed, held):
        if SIZE not in self.rules:
            return
        R = self.run("size", inst, inp, fixed)
        if R is not None:
            o = R.flat[0]
            good = not isobj(o) and int(o) == len(held)
            self.ob(SIZE, inst, good, f"size is {G.show(lift_arr(o).reshape(-1)[0])}, {len(held)} finite keys are held", self.w["size"])

    def insert(self, inst, inp, fixed, pre, block):
        """block: list of (rank, id) or None, batch_size long"""
        sc, w = self.sc, self.w["insert"]
        cells = [(None, 20000 + j) if c is None else c for j, c in enumerate(block)]
        k = np.empty((len(cells),), dtype=object)
        for j, (r, _) in enumerate(cells):
            k[j] = sc.key(r)
        ii = dict(inp, k=k, **{"v." + f: a for f, a in sc.tokens([i for _, i in cells]).items()})
        R = self.run("insert", inst, ii, fixed, len(cells))
        x = None if R is None else self.read(inst, R, "", w)
        if x is None:
            return None
        inp2, fixed2, h = x
        want = sorted(list(pre) + [c for c in block if c is not None])
        got = sorted(h.ids)
        if len(want) <= sc.q.max_size:
            self.ob(CONS, inst, got == want, f"lost {sorted(set(want) - set(got))}, gained {diff(got, want)} (rank, pair)", w)
        self.ob(DUP, inst, not diff(got, want), f"extra pairs {diff(got, want)}", w)
        self.settled(inst, h, w)
        self.size(inst, inp2, fixed2, h.ids)
        return inp2, fixed2, h

    def delete(self, inst, inp, fixed, pre):
        sc, w = self.sc, self.w["delete_mins"]
        R = self.run("delete", inst, inp, fixed)
        x = None if R is None else self.read(inst, R, "0.", w)
        if x is None:
            return None
        inp2, fixed2, h = x
        k = lift_arr(R.outs["1"][0])
        try:
            ranks = [h.rank(n) for n in k]
        except Trouble as t:
            self.ob(DEC, inst, False, str(t), w)
            return None
        out = []
        for j, r in enumerate(ranks):
            if r is not None:
                i = Held.pair({f: R.outs["2." + f][0][j] for f, _, _ in LEAVES})
                if not self.ob(PAIR, inst, not isinstance(i, str), f"returned row {j} has {i}", w):
                    return None
                out.append((r, i))
        got, want = sorted(h.ids + out), sorted(pre)
        self.ob(KEEP, inst, got == want, f"held and returned {got} instead of {want} (rank, pair)", w)
        small = sorted(r for r, _ in pre)
        small = (small + [None] * sc.bs)[:sc.bs]
        self.ob(ROOT, inst, ranks == small, f"returned keys of ranks {ranks}, the smallest held are {small}", w)
        self.settled(inst, h, w)
        self.size(inst, inp2, fixed2, h.ids)
        return inp2, fixed2, h


def diff(a, b):
    a = list(a)
    for x in b:
        if x in a:
            a.remove(x)
    return a


# ---------------------------------------------------------------- order types
def arrangements(bs, heap, buf, block, rng=None, count=None):
    """assignments of ranks 0..T-1 to the cells of a queue with `heap` full blocks (or a partial front block: heap is (r,)), `buf`
    buffered keys and `block` new keys: all linear extensions of 'rows sorted, front block smallest, parents before children',
    or `count` random ones.  Yields (rows, buffer, block) of ranks; the block's keys are unordered."""
    if isinstance(heap, tuple):
        need = [heap[0]]
    else:
        need = [bs] * heap
    total = sum(need) + buf + block

    def open_cells(fill, nb):
        for i, f in enumerate(fill):
            p = (i - 1) // 2
            if f < need[i] and (i == 0 or fill[p] == need[p]):
                yield i
        if nb < buf and (not fill or fill[0] == need[0]):
            yield -1

    def rec(seq, fill, nb, nk):
        if len(seq) == total:
            yield list(seq)
            return
        opts = list(open_cells(fill, nb)) + ([-2] if nk < block else [])
        for o in opts:
            seq.append(o)
            if o >= 0:
                fill[o] += 1
            yield from rec(seq, fill, nb + (o == -1), nk + (o == -2))
            seq.pop()
            if o >= 0:
                fill[o] -= 1

    def sample():
        seq, fill, nb, nk = [], [0] * len(need), 0, 0
        while len(seq) < total:
            opts = list(open_cells(fill, nb)) + ([-2] * 2 if nk < block else [])
            o = rng.choice(opts)
            seq.append(o)
            if o >= 0:
                fill[o] += 1
            nb, nk = nb + (o == -1), nk + (o == -2)
        return seq
    for seq in (rec([], [0] * len(need), 0, 0) if rng is None else (sample() for _ in range(count))):
        rows, b, k = [[] for _ in need], [], []
        for r, o in enumerate(seq):
            (rows[o] if o >= 0 else b if o == -1 else k).append(r)
        yield rows, b, k
