"""C37 containers under transformations: type closure of the operations, and value-number equality of the operation mapped over several
containers, or lowered with 64-bit types enabled, with the plain operation on each container."""
import contextlib, itertools, random
import numpy as np
from ..trace import *
from .. import kinds, graph as G
from .. import hashtab as H, heap as Q, heapcheck as QC
from ..common import *
from ..hashkinds import x64
from ..interp import lift_arr, Interp, isobj
from xtructure import Stack, Queue, BGPQ, HashTable
CLOSED = "an operation returns a container of the type it was given, so that it can be carried through loops"
MAP = "an operation mapped over several containers does to each what it does to that container alone"
WIDE = "with 64-bit types enabled an operation gives the same result"
LOOP = "an operation can be the body of scan, while and fori loops starting from a built container"


def run(ck):
    ck.assume += ["structure types, capacities and container contents are representative; two containers are mapped at a time; control facts (sizes, fill levels, key orders, equalities) are partitioned, all contents stay symbolic"]
    ck.fan([(f"types/{k}", {}) for k in range(4)] + [("windows", {})] + [(f"heap/{k}/2", {}) for k in range(2)] + [(f"table/{k}/3", {}) for k in range(3)])


def part(ck, label):
    {"types": types, "windows": windows, "heap": heaps, "table": tables}[label.split("/")[0]](ck, label)


# ---------------------------------------------------------------- type closure
def ops_of(K):
    """(name, container builder, [(operation, extra abstract arguments, how to get the container out)])"""
    it = lambda *b: kinds.make(K, b) if K in kinds.SPECS else jax.eval_shape(lambda: K.default(b))
    first, whole = (lambda o: o[0]), (lambda o: o)
    yield "stack", lambda: Stack.build(5, K), [("push", lambda s, x: s.push(x), (it(),), whole), ("push several", lambda s, x: s.push(x), (it(3),), whole),
          ("pop", lambda s: s.pop(), (), first), ("pop several", lambda s: s.pop(2), (), first)]
    yield "queue", lambda: Queue.build(5, K), [("enqueue", lambda s, x: s.enqueue(x), (it(),), whole), ("enqueue several", lambda s, x: s.enqueue(x), (it(3),), whole),
          ("dequeue", lambda s: s.dequeue(), (), first), ("dequeue several", lambda s: s.dequeue(3), (), first), ("clear", lambda s: s.clear(), (), whole)]
    for kd in (np.float16, jnp.bfloat16, np.float32):
        for total, bs in ((12, 4), (3, 1), (5, 5)):
            yield f"priority queue ({np.dtype(kd).name} keys, {total} in blocks of {bs})", lambda kd=kd, total=total, bs=bs: BGPQ.build(total, bs, K, jnp.dtype(kd)), [
                ("insert", lambda h, k, v: h.insert(k, v), (sds((bs,), kd), it(bs)), whole), ("delete_mins", lambda h: h.delete_mins(), (), first)]
    for cap, bs, mp in ((16, 8, None), (5, 2, 3), (1, 1, None), (100, 40, None)):
        m, key = sds((4,), bool), (lambda d: sds((4,), d))
        yield f"hash table ({cap} in buckets of {bs}, probes {mp})", lambda cap=cap, bs=bs, mp=mp: HashTable.build(K, 3, cap, bs, 2, mp), [
            ("insert", lambda t, x: t.insert(x), (it(),), first), ("parallel_insert", lambda t, x: t.parallel_insert(x), (it(4),), first),
            ("parallel_insert with mask", lambda t, x, m: t.parallel_insert(x, m), (it(4), m), first),
            ("parallel_insert of one row", lambda t, x: t.parallel_insert(x), (it(1),), first)] + [
            (f"parallel_insert with mask and {d} cost", lambda t, x, m, k: t.parallel_insert(x, m, k), (it(4), m, key(d)), first) for d in ("float32", "int32", "float16")]


def signature(t):
    ls, td = jax.tree_util.tree_flatten(t)
    return [(tuple(l.shape), np.dtype(l.dtype).name) for l in ls], td


def types(ck, label):
    k = int(label.split("/")[1])
    for wide in (k % 2 == 1,):
        with x64() if wide else contextlib.nullcontext():
            for K in list(kinds.ALL + [H.item_cls()])[k // 2::2]:
                for name, build, ops in ops_of(K):
                    I = f"{K.__name__} {name}{' (64-bit types enabled)' if wide else ''}"
                    c = guard(ck, CLOSED, I, lambda: abstract(build))
                    if c is None:
                        continue
                    for on, op, extra, out in ops:
                        o = guard(ck, CLOSED, f"{I} {on}", lambda: abstract(lambda c, *a: op(c, *a), c, *extra))
                        if o is None:
                            continue
                        ck.configs += 1
                        o = out(o)
                        (a, ta), (b, tb) = signature(c), signature(o)
                        ck.ob(CLOSED, f"{I} {on}", type(o) is type(c) and ta == tb and a == b, f"{[(x, y) for x, y in zip(a, b) if x != y]} (before, after) {'static fields or structure differ' if ta != tb else ''}", where_of(getattr(type(c), on.split()[0])))
                        if K is kinds.Nest or K is kinds.Scal:
                            loops(ck, f"{I} {on}", build, op, extra, out)


def loops(ck, I, build, op, extra, out):
    xs = jax.tree_util.tree_map(lambda l: sds((3,) + tuple(l.shape), l.dtype), extra)
    step = lambda c, a: (out(op(c, *a)), None)
    builds(ck, LOOP, I + " scan", lambda xs: jax.lax.scan(step, build(), xs, length=3)[0], (xs,))
    builds(ck, LOOP, I + " fori", lambda a: jax.lax.fori_loop(0, 3, lambda i, c: out(op(c, *a)), build()), (extra,))
    builds(ck, LOOP, I + " while", lambda a, n: jax.lax.while_loop(lambda s: s[1] < n, lambda s: (out(op(s[0], *a)), s[1] + 1), (build(), jnp.int32(0)))[0], (extra, sds((), np.int32)))
    builds(ck, LOOP, I + " cond", lambda a, p: (lambda c: jax.lax.cond(p, lambda: out(op(c, *a)), lambda: c))(build()), (extra, sds((), bool)))


# ---------------------------------------------------------------- the plain, the mapped and the 64-bit program of one operation
def two(tree):
    return jax.tree_util.tree_map(lambda l: sds((2,) + tuple(l.shape), l.dtype), tree)


class Routes:
    def __init__(self, fn, args, names):
        self.names, self.leaf = names, [nm + ("." + p if p else "") for nm, a in zip(names, args) for p, _ in leaf_paths(a)]
        self.plain = Prog(fn, args, names)
        self.mapped = Prog(jax.vmap(fn), tuple(two(a) for a in args), names)
        with x64():
            self.wide = Prog(fn, args, names)


def play(ck, prog, inp, fixed, bound=None):
    I = Interp()
    I.record = False
    if bound is not None:
        I.guarded = bound
    R = prog.run(fixed=fixed, inputs=inp, interp=I)
    ck.eqns += I.eqns; ck.configs += 1
    ck.funcs |= {f for f in I.funcs if f[0] != "?"}
    return R


def pair(a, b):
    """inputs of the mapped program from those of two plain ones"""
    inp, fixed = {}, {}
    for p in list(a[0]) + list(a[1]):
        x, y = (s[0].get(p, s[1].get(p)) for s in (a, b))
        if isobj(np.asarray(x)) or isobj(np.asarray(y)):
            inp[p] = np.stack([lift_arr(np.asarray(x)), lift_arr(np.asarray(y))])
        else:
            fixed[p] = np.stack([np.asarray(x), np.asarray(y)])
    return inp, fixed


def same(ck, rule, inst, X, row, Y, w):
    """every leaf of X (its `row` when X is mapped) is that of Y"""
    bad = None
    if list(X.outs) != list(Y.outs):
        bad = f"results {list(X.outs)} instead of {list(Y.outs)}"
    for p in Y.outs:
        if bad:
            break
        (x, xs), (y, ys) = X.outs[p], Y.outs[p]
        x, y = lift_arr(np.asarray(x)), lift_arr(np.asarray(y))
        x = x if row is None else x[row, ...]
        if x.shape != y.shape or xs.dtype != ys.dtype:
            bad = f"{p} is {xs.dtype}{list(x.shape)} instead of {ys.dtype}{list(y.shape)}"
        else:
            k = next((ix for ix in np.ndindex(*x.shape) if x[ix] is not y[ix]), None)
            if k is not None and rule == WIDE and not (G.is_const(x[k]) and G.is_const(y[k]) or x[k].op == y[k].op == "src"):
                return ck.undecided(f"{inst}: {p}{list(k)}", Unsupported(f"{G.show(x[k])} against {G.show(y[k])}"))      # the widths of intermediates may differ
            bad = None if k is None else f"{p}{list(k)} is {G.show(x[k])} instead of {G.show(y[k])}"
    ck.ob(rule, inst, bad is None, bad or "", w)


def routes(ck, rs, inst, states, w, bound=None, wide=True):
    """states: one or two (inputs, fixed) of the operation"""
    ref = [play(ck, rs.plain, *s, bound) for s in states]
    if wide:
        same(ck, WIDE, inst, play(ck, rs.wide, *states[0], bound), None, ref[0], w)
    if len(states) == 2:
        R = play(ck, rs.mapped, *pair(*states), bound)
        for j in (0, 1):
            same(ck, MAP, f"{inst} container {j}", R, j, ref[j], w)


def make_routes(ck, inst, fn, args, names):
    try:
        return Routes(fn, args, names)
    except TraceError as e:
        ck.crash(MAP, inst, e)


# ---------------------------------------------------------------- stack and queue
def windows(ck, label):
    for K in (kinds.Scal, kinds.Nest, kinds.Packed, kinds.Wide):
        cap = 4
        for cls, build, marks, ops in (
                (Stack, Stack.build, lambda s: {"s.size": s}, [("push", lambda s, x: s.push(x), ()), ("push", lambda s, x: s.push(x), (2,)), ("pop", lambda s: s.pop(), None), ("pop", lambda s: s.pop(2), None), ("peek", lambda s: s.peek(), None), ("peek", lambda s: s.peek(3), None)]),
                (Queue, Queue.build, lambda ht: {"s.head": ht[0], "s.tail": ht[1]}, [("enqueue", lambda s, x: s.enqueue(x), ()), ("enqueue", lambda s, x: s.enqueue(x), (2,)), ("dequeue", lambda s: s.dequeue(), None), ("dequeue", lambda s: s.dequeue(2), None), ("peek", lambda s: s.peek(2), None), ("clear", lambda s: s.clear(), None)])):
            c = guard(ck, MAP, f"{cls.__name__} of {K.__name__}", lambda: abstract(build, cap, K))
            if c is None:
                continue
            ctl = range(cap + 1) if cls is Stack else [(a, b) for b in range(cap + 1) for a in range(b + 1)]
            for q, (on, op, b) in enumerate(ops):
                args, names = ((c,), ["s"]) if b is None else ((c, kinds.make(K, b)), ["s", "x"])
                w = where_of(getattr(cls, on))
                G.reset()
                rs = make_routes(ck, f"{cls.__name__} {on} {K.__name__}", op, args, names)
                if rs is None:
                    continue
                srcs = [{p: src for p, src in given(args, names, j).items()} for j in (0, 1)]
                todo = list(itertools.product(ctl, ctl))
                for u, v in todo if len(todo) <= 25 else todo[q % 3::3]:
                    states = []
                    for j, z in enumerate((u, v)):
                        fx = {k: np.asarray(n, np.uint32) for k, n in marks(z).items()}
                        states.append(({p: a for p, a in srcs[j].items() if p not in fx}, fx))
                    routes(ck, rs, f"{cls.__name__} of {K.__name__}, {on} {'' if b is None else list(b)}, {'sizes' if cls is Stack else 'windows'} {u} and {v}", states, w, wide=True)


def given(args, names, j):
    out = {}
    for nm, a in zip(names, args):
        for p, l in leaf_paths(a):
            k = nm + ("." + p if p else "")
            v = np.empty(l.shape, dtype=object)
            for ix in np.ndindex(*l.shape):
                v[ix] = G.src(f"container {j}: {k}", ix, l.dtype)
            out[k] = v
    return out


# ---------------------------------------------------------------- priority queue
def heaps(ck, label):
    _, k, n = label.split("/")
    k, n, q = int(k), int(n), 0
    for bs, total, kdt, steps in ((1, 4, "float16", 6), (2, 5, "float32", 8), (2, 14, "bfloat16", 3), (3, 9, "float32", 4)):
        try:
            sc = Q.Scene(bs, total, kdt)
        except TraceError as e:
            ck.crash(MAP, f"queue of {total} in blocks of {bs}", e)
            continue
        vs = jax.eval_shape(lambda: Q.Val.default((bs,)))
        prog = {"insert": make_routes(ck, sc.name + " insert", lambda q, k, v: q.insert(k, v), (sc.q, sds((bs,), sc.kdt), vs), ["q", "k", "v"]),
                "delete_mins": make_routes(ck, sc.name + " delete", lambda q: q.delete_mins(), (sc.q,), ["q"])}
        ins, dels = [], []
        for fill in QC.fills(sc):
            for case in QC.cases(sc, fill, steps if not ck.thorough else 4 * steps):
                (dels if case[2] is None else ins).append(case)
        rng = random.Random(sc.name)
        for op, cs in (("insert", ins), ("delete_mins", dels)):
            if prog[op] is None:
                continue
            other = cs[:]
            rng.shuffle(other)
            for a, b in zip(cs, other):
                q += 1
                if q % n != k:
                    continue
                states, ranks, txt = [], set(), []
                for j, (rows, buf, block) in enumerate((a, b)):
                    ren = lambda c, j=j: None if c is None else (2 * c[0] + j * (q % 3 != 0), c[1] + 500 * j)
                    rows, buf, block = [[ren(c) for c in r] for r in rows], [ren(c) for c in buf], None if block is None else [ren(c) for c in block]
                    full = [r + [None] * (bs - len(r)) for r in rows] + [[None] * bs for _ in range(sc.branch - len(rows))]
                    bb = buf + [None] * (bs - 1 - len(buf))
                    ranks |= {c[0] for r in full + [bb, block or []] for c in r if c}
                    states.append((full, bb, block, len(rows) - 1 if rows and len(rows[0]) == bs else 0))
                    show = lambda r: [None if c is None else c[0] for c in r]
                    txt.append(f"{[show(r) for r in full]} buffer {show(bb)} {'' if block is None else show(block)}")
                with sc.partition(ranks):
                    ready = []
                    for j, (full, bb, block, size) in enumerate(states):
                        inp, fixed = sc.state(full, bb, size)
                        if block is not None:
                            cells = [(None, 20000 + 100 * j + i) if c is None else c for i, c in enumerate(block)]
                            ks = np.empty((bs,), dtype=object)
                            for i, (r, _) in enumerate(cells):
                                ks[i] = sc.key(r)
                            inp = dict(inp, k=ks, **{"v." + f: v for f, v in sc.tokens([i for _, i in cells]).items()})
                        ready.append((inp, fixed))
                    routes(ck, prog[op], f"{sc.name}, {op}: {' and '.join(txt)}", ready, where_of(getattr(BGPQ, op)))


# ---------------------------------------------------------------- hash table
def tables(ck, label):
    for cap, bs, mp in ((2, 2, None), (4, 1, None), (4, 1, 3), (1, 3, None), (4, 2, 3)):
        n = 2
        sc = guard(ck, MAP, f"{cap} buckets of {bs}", lambda: H.Scene(cap, bs, n, max_probes=mp))
        if sc is None:
            continue
        m = sds((n,), bool)
        kinds_ = {"insert": (lambda t, x: t.insert(x), (sc.t, sc.x), "t x"), "lookup": (lambda t, x: t.lookup(x), (sc.t, sc.x), "t x"),
                  "lookup_parallel": (lambda t, x, m: t.lookup_parallel(x, m), (sc.t, sc.X, m), "t x m"),
                  "parallel_insert": (lambda t, x, m: t.parallel_insert(x, m), (sc.t, sc.X, m), "t x m")}
        rs = {k: make_routes(ck, f"{k}, {cap} buckets of {bs}", f, a, nm.split()) for k, (f, a, nm) in kinds_.items()}
        todo = [(f, p, s) for f in itertools.product(range(bs + 1), repeat=cap) for p in H.partitions(n) for s in range(cap)]
        todo = H.spread(todo, 60 if not ck.thorough else 600)
        other = todo[:]
        random.Random(f"{cap} {bs}").shuffle(other)
        for q, (a, b) in enumerate(zip(todo, other)):
            if q % 3 != int(label.split("/")[1]):
                continue
            ids = [[x for x in a[1]], [x + 10 for x in b[1]]]
            every = sorted(set(ids[0] + ids[1]))
            hs = H.hashes_for(cap, [((a if i < 10 else b)[2] + i * (q % 2)) % cap for i in every], [(1 + 2 * (i * q % 3)) % cap if cap > 1 else 0 for i in every])
            hs = {i: v for i, v in zip(every, hs.values())}
            with H.Part(sc, hs):
                sts = [H.State(sc, f[0]) for f in (a, b)]
                for j, st in enumerate(sts):
                    for k, fp in enumerate(st.fp):
                        st.fp[k] = G.src(f"stored fingerprint of {j}", (k,), np.uint32)
                    if any(st.fill) and q % 2:
                        bu = next(u for u in range(cap) if st.fill[u])
                        put = {(bu, 0): ids[j][0]}
                        sts[j] = st = H.State(sc, (a, b)[j][0], put, fps=None)
                for op in kinds_:
                    if rs[op] is None:
                        continue
                    ready = []
                    for j, st in enumerate(sts):
                        inp, fx = dict(st.inputs()), dict(st.fixed())
                        if op in ("insert", "lookup"):
                            inp["x.a"], inp["x.b"] = sc.item(ids[j][0])
                            inp["x.a"] = box(inp["x.a"])
                        else:
                            xs = [sc.item(i) for i in ids[j]]
                            inp["x.a"] = np.array([box(x[0])[()] for x in xs] + [None], dtype=object)[:-1]
                            inp["x.b"] = np.stack([x[1] for x in xs])
                            fx["m"] = np.asarray([(q + j) % 3 != 0, (q + j) % 4 != 1])
                        ready.append((inp, fx))
                    routes(ck, rs[op], f"{cap} buckets of {bs}, budget {sc.mp}, {op}: fills {list(a[0])} and {list(b[0])}, rows {ids}", ready, where_of(getattr(HashTable, op)), bound=sc.mp + 2)


def box(n):
    v = np.empty((), dtype=object)
    v[()] = n
    return v
