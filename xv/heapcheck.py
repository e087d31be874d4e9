"""What C03, C04 and C05 analyse: one operation from every valid queue content of small queues (all order types where few, evenly
spread random ones otherwise), and histories from the empty queue."""
import random, itertools
from .heap import *
N = 8


def run(ck):
    ck.assume += ["keys are finite or the infinite sentinel (NaN and -inf excluded), blocks given to insert have the batch size (make_batched)",
                  "queue sizes are small representatives; key order types are enumerated for the smallest and sampled evenly (fixed seeds) for the larger ones, ties included; key and value contents are arbitrary",
                  "merging is analysed with the default (sort) strategy; C06 decides that the other strategies give the same answer"]
    ck.fan([(f"{k}/{N}", {}) for k in range(N)])


def configs(thorough):
    """(block size, total, key dtype, steps per fill state, histories)"""
    m = 12 if thorough else 1
    yield 1, 1, "float32", 30 * m, 10 * m
    yield 1, 4, "float16", 30 * m, 20 * m
    yield 1, 7, "float32", 12 * m, 30 * m
    yield 2, 2, "float32", 60 * m, 10 * m
    yield 2, 5, "float32", 60 * m, 20 * m
    yield 2, 8, "bfloat16", 24 * m, 20 * m
    yield 2, 14, "float32", 8 * m, 30 * m
    yield 3, 9, "float32", 24 * m, 20 * m
    yield 3, 13, "float16", 12 * m, 20 * m
    yield 4, 20, "float32", 5 * m, 10 * m
    yield 5, 10, "float32", 8 * m, 8 * m
    if thorough:
        yield 2, 30, "float32", 8, 60
        yield 4, 60, "float32", 3, 20
        yield 7, 49, "float32", 3, 10
        yield 1, 33, "float32", 4, 30


def part(ck, label):
    k, n = map(int, label.split("/"))
    q = 0
    for bs, total, kdt, steps, hist in configs(ck.thorough):
        try:
            sc = Scene(bs, total, kdt)
        except TraceError as e:
            ck.crash(DEC, f"queue of {total} with blocks of {bs}", e)
            continue
        J = Judge(ck, sc)
        for fill in fills(sc):
            for case in cases(sc, fill, steps):
                if q % n == k:
                    step(J, sc, fill, *case)
                q += 1
        for h in range(hist):
            if q % n == k:
                history(J, sc, h)
            q += 1


def fills(sc):
    """(front rows or number of full blocks, buffered)"""
    for r in range(sc.bs):
        yield (r,), 0
    for h in range(1, sc.branch + 1):
        for b in range(sc.bs):
            yield h, b


def ties(seq, mode, rng):
    """rank -> tied rank"""
    if mode == 0:
        return {r: r for r in seq}
    out, cur = {}, 0
    for r in sorted(seq):
        if mode == 2 or rng.random() < 0.5:
            pass
        else:
            cur += 1
        out[r] = cur
    return out


def cases(sc, fill, steps):
    """(rows, buffer, block) with distinct ids; block None: a deletion"""
    bs = sc.bs
    for nb in [None] + sorted({0, 1, bs - 1, bs}, reverse=True):
        heap, buf = fill
        if isinstance(heap, int) and nb:
            pass
        rng = random.Random(f"{bs} {sc.branch} {fill} {nb}")
        m = 0 if nb is None else nb
        count = max(2, steps if nb == bs else steps // 3)
        small = (heap[0] if isinstance(heap, tuple) else heap * bs) + buf + m <= 6
        if small:
            al = list(arrangements(bs, heap, buf, m))
            if len(al) > count:
                al = [al[(i * len(al)) // count] for i in range(count)]
        else:
            al = list(arrangements(bs, heap, buf, m, rng, count))
        for j, (rows, b, k) in enumerate(al):
            t = ties([r for row in rows for r in row] + b + k, (0, 1, 0, 1, 2)[j % 5], rng)
            cell = lambda r: (t[r], r)
            block = None
            if nb is not None:
                block = [cell(r) for r in k] + [None] * (bs - nb)
                rng.shuffle(block)
            yield [[cell(r) for r in row] for row in rows], [cell(r) for r in b], block


def step(J, sc, fill, rows, buf, block):
    full = [list(r) + [None] * (sc.bs - len(r)) for r in rows] + [[None] * sc.bs for _ in range(sc.branch - len(rows))]
    b = list(buf) + [None] * (sc.bs - 1 - len(buf))
    pre = [c for r in full for c in r if c] + [c for c in b if c]
    show = lambda c: "-" if c is None else c[0]
    inst = f"{sc.name}: blocks {[[show(c) for c in r] for r in full]} buffer {[show(c) for c in b]} (key ranks), " + \
        ("delete" if block is None else f"insert {[show(c) for c in block]}")
    with sc.partition({r for r, _ in pre} | {c[0] for c in block or [] if c}):
        inp, fixed = sc.state(full, b, len(rows) - 1 if rows and len(rows[0]) == sc.bs else 0)
        if block is None:
            J.delete(inst, inp, fixed, pre)
        else:
            J.insert(inst, inp, fixed, pre, block)


def history(J, sc, h):
    """operations from the empty queue; all keys of the history are ordered by one order type"""
    rng = random.Random(f"history {sc.bs} {sc.branch} {h}")
    bs = sc.bs
    ops, total = [], 0
    style = h % 4
    for _ in range(min(4 + 2 * sc.branch, 14)):
        if style == 0 and total + bs <= sc.q.max_size or style != 0 and rng.random() < (0.75 if style < 3 else 0.55):
            n = rng.choice([bs, bs, rng.randint(0, bs)])
            ops.append(n)
            total += n
        else:
            ops.append(None)
            total = max(0, total - bs)
    m = sum(n or 0 for n in ops)
    order = list(range(m)) if h % 5 == 0 else list(reversed(range(m))) if h % 5 == 1 else [rng.randrange(max(1, m // (1 if h % 2 else 3))) for _ in range(m)] if h % 5 == 2 else rng.sample(range(m), m)
    it = iter(range(m))
    with sc.partition(set(order)):
        empty = [[None] * bs for _ in range(sc.branch)]
        inp, fixed = sc.state(empty, [None] * (bs - 1), 0)
        pre, text = [], ""
        for n in ops:
            if n is None:
                text += " delete;"
                x = J.delete(f"{sc.name}:{text}", inp, fixed, pre)
            else:
                ids = [next(it) for _ in range(n)]
                block = [(order[i], i) for i in ids] + [None] * (bs - n)
                if rng.random() < 0.5:
                    rng.shuffle(block)
                text += f" insert {['-' if c is None else c[0] for c in block]};"
                x = J.insert(f"{sc.name}:{text}", inp, fixed, pre, block)
            if x is None:
                return
            inp, fixed, held = x
            pre = held.ids


PADK = "padding a short block adds only infinite keys after the given ones"
PADV = "padding a short block adds only default values after the given ones"
CAP = "the capacity is the requested one rounded up to whole blocks"
NEW = "a new queue is empty"


def padding(ck):
    from . import kinds
    for K in (Val, kinds.Wide, kinds.Nest, kinds.Packed):
        for kdt in ("float16", "float32"):
            for bs in (1, 2, 5, 8):
                for n in range(bs + 1):
                    v = jax.eval_shape(lambda: K.default((n,)))
                    q = abstract(BGPQ.build, 2 * bs, bs, K, jnp.dtype(kdt))
                    for how, fn, args, nm in (("make_batched", lambda k, v: BGPQ.make_batched(k, v, bs), (sds((n,), jnp.dtype(kdt)), v), ["k", "v"]),
                                              ("make_batched_like", lambda q, k, v: q.make_batched_like(k, v), (q, sds((n,), jnp.dtype(kdt)), v), ["q", "k", "v"])):
                        inst = f"{how} {n} of {bs} {K.__name__} {kdt}"
                        w = where_of(getattr(BGPQ, how))
                        R = go(ck, PADK, inst, fn, args, nm)
                        if R is None:
                            continue
                        o, s = R.outs["0"]
                        exp = np.concatenate([lift_arr(R.ins["k"]), lift_arr(np.full((bs - n,), np.inf, jnp.dtype(kdt)))])
                        ck.ob(PADK, inst + " type", s.dtype == jnp.dtype(kdt), s.dtype, w)
                        ck.eq(PADK, inst, o, exp, w)
                        D = go(ck, PADV, inst, lambda: K.default((bs - n,)), (), [])
                        for p, _ in leaf_paths(v):
                            o, s = R.outs["1." + p]
                            ck.eq(PADV, f"{inst} {p}", o, np.concatenate([lift_arr(R.ins["v." + p]), lift_arr(D.outs[p][0])]), w)


def capacity(ck):
    w = where_of(BGPQ.build)
    for total in (*range(1, 40), 63, 64, 65, 100, 1000, 4097):
        for bs in (1, 2, 3, 4, 5, 7, 8, 16, 64):
            q = guard(ck, CAP, f"{total} of {bs}", lambda: abstract(BGPQ.build, total, bs, In))
            if q is None:
                continue
            b = -(-total // bs)
            ck.ob(CAP, f"{total} in blocks of {bs}", q.max_size == b * bs and q.key_store.shape == (b, bs) and q.val_store.p.shape == (b, bs) and q.batch_size == bs and q.branch_size == b,
                  f"max_size {q.max_size}, blocks {q.key_store.shape}", w)
    for bs, total in ((1, 3), (4, 10)):
        R = go(ck, NEW, f"{total} of {bs}", lambda: (lambda q: (q, q.size))(BGPQ.build(total, bs, Val, jnp.float32)), (), [])
        if R is not None:
            ck.ob(NEW, f"{total} of {bs}", not isobj(R.outs["1"][0]) and int(R.outs["1"][0]) == 0, R.outs["1"][0], w)
            ck.ob(NEW, f"{total} of {bs} keys", not isobj(R.outs["0.key_store"][0]) and bool(np.all(np.isinf(np.asarray(R.outs["0.key_store"][0], np.float64)))), "", w)
