"""C23 batch reshaping operations: element provenance of every field against an index-permutation reference."""
import itertools
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
import xtructure
from xtructure import xtructure_numpy as xnp

A = np.asarray


def batch_ops(b):
    """operations on the batch axes only: (label, function form, method form or None, reference(leaf, nb))"""
    nb, n = len(b), int(np.prod(b))
    tail = lambda x: x.shape[nb:]
    shapes = {(n,), (-1,), (1, n), (n, 1), (-1, 1)}
    if n % 2 == 0 and n:
        shapes |= {(2, n // 2), (n // 2, 2), (-1, 2), (2, -1)}
    if n % 3 == 0 and n:
        shapes |= {(3, n // 3), (3, -1), (-1, 3)}
    for s in sorted(shapes):
        if n == 0 and -1 in s and len(s) > 1:
            pass
        full = tuple(n // int(np.prod([x for x in s if x != -1])) if q == -1 else q for q in s)
        ref = lambda x, full=full: x.reshape(full + tail(x))
        yield f"reshape{s}", lambda v, s=s: xnp.reshape(v, s), lambda v, s=s: v.reshape(s), ref
        yield f"reshape*{s}", lambda v, s=s: xnp.reshape(v, list(s)), lambda v, s=s: v.reshape(*s), ref
    yield "reshape int", lambda v: xnp.reshape(v, -1), lambda v: v.reshape(-1), lambda x: x.reshape((n,) + tail(x))
    yield "flatten", lambda v: xnp.flatten(v), lambda v: v.flatten(), lambda x: x.reshape((n,) + tail(x))
    yield "ravel", lambda v: xnp.ravel(v), None, lambda x: x.reshape((n,) + tail(x))
    for ax in [None] + list(itertools.permutations(range(nb))):
        full = (tuple(range(nb))[::-1] if ax is None else ax)
        yield f"transpose({ax})", lambda v, ax=ax: xnp.transpose(v, ax), lambda v, ax=ax: v.transpose(axes=ax), lambda x, full=full: x.transpose(full + tuple(range(nb, x.ndim)))
    for i in range(-nb, nb):
        for j in range(-nb, nb):
            yield f"swapaxes({i},{j})", lambda v, i=i, j=j: xnp.swapaxes(v, i, j), lambda v, i=i, j=j: v.swapaxes(i, j), lambda x, i=i, j=j: np.swapaxes(x, i % nb, j % nb)


def field_ops(b):
    """operations applied to every field like the array library does"""
    nb, n = len(b), int(np.prod(b))
    for i in range(nb):
        for j in range(nb):
            yield f"moveaxis({i},{j})", lambda v, i=i, j=j: xnp.moveaxis(v, i, j), lambda v, i=i, j=j: v.moveaxis(i, j), lambda x, i=i, j=j: np.moveaxis(x, i, j)
    if nb > 1:
        yield "moveaxis((0,1),(1,0))", lambda v: xnp.moveaxis(v, (0, 1), (1, 0)), lambda v: v.moveaxis((0, 1), (1, 0)), lambda x: np.moveaxis(x, (0, 1), (1, 0))
    for i in list(range(nb + 1)) + [(0, 1), (0, 2)]:
        yield f"expand_dims({i})", lambda v, i=i: xnp.expand_dims(v, axis=i), lambda v, i=i: v.expand_dims(axis=i), lambda x, i=i: np.expand_dims(x, i)
    for i in range(nb):
        if b[i] == 1:
            yield f"squeeze({i})", lambda v, i=i: xnp.squeeze(v, axis=i), lambda v, i=i: v.squeeze(axis=i), lambda x, i=i: np.squeeze(x, i)
    yield "squeeze()", lambda v: xnp.squeeze(v), lambda v: v.squeeze(), lambda x: np.squeeze(x)
    for i in range(nb):
        for r in [1, 2, 0]:
            yield f"repeat({r},{i})", lambda v, i=i, r=r: xnp.repeat(v, r, axis=i), None, lambda x, i=i, r=r: np.repeat(x, r, axis=i)
        if b[i] > 1:
            reps = np.array([(k * 2 + 1) % 4 for k in range(b[i])])
            yield f"repeat({reps.tolist()},{i})", lambda v, i=i, r=reps: xnp.repeat(v, r, axis=i), None, lambda x, i=i, r=reps: np.repeat(x, r, axis=i)
    yield "repeat(3)", lambda v: xnp.repeat(v, 3), None, lambda x: np.repeat(x, 3)
    for r in (2, 3, 1, (2, 1), (1, 3), (2, 1, 2), (0,), (1,) * 4 + (2,)):
        yield f"tile({r})", lambda v, r=r: xnp.tile(v, r), None, lambda x, r=r: np.tile(x, r)
    for i in range(nb):
        L = b[i]
        for k in [k for k in (1, 2, 3, L) if k and L % k == 0]:
            yield f"split({k},{i})", lambda v, i=i, k=k: xnp.split(v, k, axis=i), None, lambda x, i=i, k=k: np.split(x, k, axis=i)
        if L > 1:
            yield f"split([1,{L - 1}],{i})", lambda v, i=i, L=L: xnp.split(v, [1, L - 1], axis=i), None, lambda x, i=i, L=L: np.split(x, [1, L - 1], axis=i)
            yield f"split(array,{i})", lambda v, i=i, L=L: xnp.split(v, np.array([1]), axis=i), None, lambda x, i=i, L=L: np.split(x, [1], axis=i)
        for ix in ([L - 1, 0, 0], [[0], [L - 1]], [], L - 1):
            q = np.array(ix, dtype=np.int32)
            if L:
                yield f"take({ix},{i})", lambda v, i=i, q=q: xnp.take(v, q, axis=i), None, lambda x, i=i, q=q: np.take(x, q, axis=i)
        if L:
            yield f"take(clip,{i})", lambda v, i=i, L=L: xnp.take(v, np.array([L + 5, 0]), axis=i, mode="clip"), None, lambda x, i=i, L=L: np.take(x, [L - 1, 0], axis=i)
            yield f"take(wrap,{i})", lambda v, i=i, L=L: xnp.take(v, np.array([L + 1, -1]), axis=i, mode="wrap"), None, lambda x, i=i, L=L: np.take(x, [(L + 1) % L, L - 1], axis=i)
        for s in (1, -1, 2, L + 1, 0):
            yield f"roll({s},{i})", lambda v, i=i, s=s: xnp.roll(v, s, axis=i), lambda v, i=i, s=s: v.roll(s, axis=i), lambda x, i=i, s=s: np.roll(x, s, axis=i)
        yield f"flip({i})", lambda v, i=i: xnp.flip(v, axis=i), lambda v, i=i: v.flip(axis=i), lambda x, i=i: np.flip(x, axis=i)
    yield "roll(1)", lambda v: xnp.roll(v, 1), lambda v: v.roll(1), lambda x: np.roll(x, 1)
    yield "flip()", lambda v: xnp.flip(v), lambda v: v.flip(), lambda x: np.flip(x)
    if nb > 1:
        yield "roll((1,2),(0,1))", lambda v: xnp.roll(v, (1, 2), axis=(0, 1)), lambda v: v.roll((1, 2), axis=(0, 1)), lambda x: np.roll(x, (1, 2), axis=(0, 1))
        yield "flip((0,1))", lambda v: xnp.flip(v, axis=(0, 1)), lambda v: v.flip(axis=(0, 1)), lambda x: np.flip(x, axis=(0, 1))
        for k in (-1, 0, 1, 2, 3, 5):
            for axes in ((0, 1), (1, 0)):
                yield f"rot90({k},{axes})", lambda v, k=k, axes=axes: xnp.rot90(v, k=k, axes=axes), lambda v, k=k, axes=axes: v.rot90(k=k, axes=axes), lambda x, k=k, axes=axes: np.rot90(x, k, axes)
        yield "rot90()", lambda v: xnp.rot90(v), lambda v: v.rot90(), lambda x: np.rot90(x)
    for d, f in ((1, np.atleast_1d), (2, np.atleast_2d), (3, np.atleast_3d)):
        yield f"atleast_{d}d", lambda v, d=d: getattr(xnp, f"atleast_{d}d")(v), None, f
    # gather along a batch axis: index array without the fields' own axes
    for i in range(nb):
        if not n:
            continue
        ish = tuple(2 if a == i else b[a] for a in range(nb))
        q = (np.arange(int(np.prod(ish))).reshape(ish) * 7 + 3) % b[i]
        yield (f"take_along_axis({i})", lambda v, i=i, q=q: xnp.take_along_axis(v, q, i), None,
               lambda x, i=i, q=q: np.take_along_axis(x, np.broadcast_to(q.reshape(q.shape + (1,) * (x.ndim - nb)), q.shape + x.shape[nb:]), i))
        one = q[tuple(slice(0, 1) if a != i else slice(None) for a in range(nb))]
        yield (f"take_along_axis({i}) broadcast", lambda v, i=i, q=one: xnp.take_along_axis(v, q, i), None,
               lambda x, i=i, q=one: np.take_along_axis(x, np.broadcast_to(q.reshape(q.shape + (1,) * (x.ndim - nb)), tuple(q.shape[a] if a == i else x.shape[a] for a in range(x.ndim))), i))


def where_op(name):
    f = getattr(xnp, name, None)
    return where_of(f) if f is not None else ("xtructure/xtructure_numpy.py", 0, name)


def run(ck):
    ck.assume += ["axes are counted from the front, so that they are batch axes of every field", "batch shapes and argument values are enumerated representatives"]
    batches = [(3,), (2, 3), (1, 2), (6,)] + ([(2, 1, 3), (4, 4), (12,), (2, 2, 2)] if ck.thorough else [(2, 1, 3)])
    for K in kinds.ALL:
        for b in batches:
            if K in (kinds.Deep, kinds.Wide) and b in [(6,), (2, 1, 3)] and not ck.thorough:
                continue
            v = kinds.make(K, b)
            ops = [(o, "batch") for o in batch_ops(b)] + [(o, "field") for o in field_ops(b)]
            # one program holds every operation, so each structure/batch pair is lowered once
            jobs = []
            for (lab, fn, meth, ref), kind in ops:
                jobs.append((lab, fn, ref))
                if meth is not None:
                    jobs.append((lab + " (method)", meth, ref))
            check(ck, K, b, v, jobs)
    v = kinds.make(kinds.Scal, (24,))
    check(ck, kinds.Scal, (24,), v, [(o[0], o[1], o[3]) for f in (batch_ops, field_ops) for o in f((24,))])
    for K in (kinds.Scal, kinds.One, kinds.Nest):
        for b in ((2, 1, 2, 3),) + (((3, 2, 1, 2), (1, 1, 2, 1, 2)) if ck.thorough else ()):
            if K is kinds.Nest and not ck.thorough:
                continue
            v = kinds.make(K, b)
            check(ck, K, b, v, [j for o in batch_ops(b) for j in ((o[0], o[1], o[3]), (o[0] + " (method)", o[2], o[3])) if j[1] is not None])
    two_args(ck)
    from_end(ck)
    broadcast(ck)
    negative(ck)


def check(ck, K, b, v, jobs):
    good = []
    name = lambda lab: lab.split("(")[0].split("{")[0].split("[")[0].split(" ")[0].split("*")[0].rstrip("0123456789,")
    try:
        R = analyze(lambda x: [f(x) for _, f, _ in jobs], (v,), ["v"])
        ck.saw(R.I)
        per = None
    except TraceError:
        R = None
    if R is None:
        for job in jobs:
            r = go(ck, "operation accepted", f"{K.__name__}{b}.{job[0]}", job[1], (v,), ["v"])
            if r is not None:
                compare(ck, K, b, job, r.outs, r.ins, "")
        return
    for k, job in enumerate(jobs):
        compare(ck, K, b, job, R.outs, R.ins, f"{k}.")


def compare(ck, K, b, job, outs, ins, pre):
    lab, _, ref = job
    base = next((n for n in dir(xnp) if lab.startswith(n) and not lab[len(n):len(n) + 1].isalpha() and lab[len(n):len(n) + 1] != "_"), lab)
    w = where_op(base)
    for p, dt, sh in kinds.leaf_specs(K, batch=b):
        e = ref(ins["v." + p])
        es = e if isinstance(e, list) else [e]
        for q, ex in enumerate(es):
            key = pre + (f"{q}." if isinstance(e, list) else "") + p
            if key not in outs:
                ck.ob("operation yields every field", f"{K.__name__}{b}.{lab} {key}", False, "missing", w)
                continue
            o, s = outs[key]
            ck.eq("every field is rearranged like its batch axes", f"{K.__name__}{b}.{lab} {p}", o, ex, w)
            ck.ob("rearranging keeps the dtype", f"{K.__name__}{b}.{lab} {p}", s.dtype == dt, s.dtype, w)
        if isinstance(e, list):
            ck.ob("split yields the declared number of parts", f"{K.__name__}{b}.{lab}", f"{pre}{len(es)}.{p}" not in outs, "", w)


def two_args(ck):
    for K, b in ((kinds.Scal, (2,)), (kinds.Nest, ()), (kinds.Wide, (2,))):
        v, u = kinds.make(K, b), kinds.make(K, b)
        for d, f in ((1, np.atleast_1d), (2, np.atleast_2d), (3, np.atleast_3d)):
            R = go(ck, "operation accepted", f"{K.__name__}{b}.atleast_{d}d(v,w)", lambda x, y, d=d: getattr(xnp, f"atleast_{d}d")(x, y), (v, u), ["v", "w"])
            if R is None:
                continue
            for p, dt, sh in kinds.leaf_specs(K, batch=b):
                for k, nm in enumerate("vw"):
                    ck.eq("every field is rearranged like its batch axes", f"{K.__name__}{b}.atleast_{d}d {nm}.{p}", R.outs[f"{k}.{p}"][0], f(R.ins[f"{nm}.{p}"]), where_op(f"atleast_{d}d"))


def from_end(ck):
    """axes counted from the end: each field's own last axis, exactly as the array library applied to every field"""
    for K, b in ((kinds.Scal, (3,)), (kinds.Scal, (2, 3)), (kinds.One, (2, 3)), (kinds.Packed, (3,)), (kinds.Packed, (2, 3))):
        v = kinds.make(K, b)
        leaves = kinds.leaf_specs(K, batch=b)
        plain = all(not sh for _, _, sh in leaves)
        nb = len(b)
        jobs = []
        for i in range(1, nb + 1):
            for r in (2, 0):
                jobs.append((f"repeat({r},-{i})", lambda v, i=i, r=r: xnp.repeat(v, r, axis=-i), lambda x, i=i, r=r: np.repeat(x, r, axis=-i)))
            jobs.append((f"expand_dims(-{i})", lambda v, i=i: xnp.expand_dims(v, axis=-i), lambda x, i=i: np.expand_dims(x, -i)))
            jobs.append((f"roll(1,-{i})", lambda v, i=i: xnp.roll(v, 1, axis=-i), lambda x, i=i: np.roll(x, 1, axis=-i)))
            jobs.append((f"flip(-{i})", lambda v, i=i: xnp.flip(v, axis=-i), lambda x, i=i: np.flip(x, axis=-i)))
            jobs.append((f"moveaxis(0,-{i})", lambda v, i=i: xnp.moveaxis(v, 0, -i), lambda x, i=i: np.moveaxis(x, 0, -i)))
            jobs.append((f"moveaxis(-{i},0)", lambda v, i=i: xnp.moveaxis(v, -i, 0), lambda x, i=i: np.moveaxis(x, -i, 0)))
            jobs.append((f"split(1,-{i})", lambda v, i=i: xnp.split(v, 1, axis=-i), lambda x, i=i: np.split(x, 1, axis=-i)))
            if all((b + sh)[-i] > 1 for _, _, sh in leaves):
                jobs.append((f"split([1],-{i})", lambda v, i=i: xnp.split(v, [1], axis=-i), lambda x, i=i: np.split(x, [1], axis=-i)))
                jobs.append((f"take([1,0],-{i})", lambda v, i=i: xnp.take(v, np.array([1, 0]), axis=-i), lambda x, i=i: np.take(x, [1, 0], axis=-i)))
            if plain:
                ish = tuple(2 if a == nb - i else b[a] for a in range(nb))
                q = (np.arange(int(np.prod(ish))).reshape(ish) * 7 + 3) % b[-i]
                jobs.append((f"take_along_axis(-{i})", lambda v, i=i, q=q: xnp.take_along_axis(v, q, -i), lambda x, i=i, q=q: np.take_along_axis(x, q, -i)))
        check(ck, K, b, v, jobs)
    # a negative axis of a leaf with trailing axes: the index array gets the leaf's trailing axes appended before it is used
    for b in ((3,), (2, 3)):
        K = kinds.Packed
        v = kinds.make(K, b)
        for i in range(1, len(b) + 1):
            for q in ((np.arange(int(np.prod(b))).reshape(b) * 5 + 1) % 2, np.zeros(b, int)):
                def ref(x, i=i, q=q):
                    e = q.reshape(q.shape + (1,) * (x.ndim - q.ndim))
                    ax = x.ndim - i
                    return np.take_along_axis(x, np.broadcast_to(e, tuple(e.shape[a] if a == ax else x.shape[a] for a in range(x.ndim))), ax)
                check(ck, K, b, v, [(f"take_along_axis(-{i})", lambda v, i=i, q=q: xnp.take_along_axis(v, q, -i), ref)])


def broadcast(ck):
    for K in (kinds.Scal, kinds.One):
        for b, to in (((), (3,)), ((1,), (3,)), ((2, 1), (2, 3)), ((3,), (2, 3)), ((3,), (3,)), ((1, 3), (2, 2, 3))):
            v = kinds.make(K, b)
            for lab, f in (("broadcast_to", lambda x: xnp.broadcast_to(x, to)), ("broadcast_to (method)", lambda x: x.broadcast_to(to))):
                R = go(ck, "operation accepted", f"{K.__name__}{b}.{lab}{to}", f, (v,), ["v"])
                if R is not None:
                    for p, dt, sh in kinds.leaf_specs(K, batch=b):
                        ck.eq("every field is rearranged like its batch axes", f"{K.__name__}{b}.{lab}{to} {p}", R.outs[p][0], np.broadcast_to(R.ins["v." + p], to), where_op("broadcast_to"))
    for K in kinds.ALL:
        for bs in (((3,), (1,)), ((2, 1), (1, 3)), ((2, 3), (2, 3)), ((1,), (4,), (1,))):
            vs = [kinds.make(K, b) for b in bs]
            out = np.broadcast_shapes(*bs)
            R = go(ck, "operation accepted", f"{K.__name__} broadcast_arrays{bs}", lambda *x: xnp.broadcast_arrays(*x), vs, [f"v{i}" for i in range(len(bs))])
            if R is None:
                continue
            for i, b in enumerate(bs):
                for p, dt, sh in kinds.leaf_specs(K, batch=b):
                    x = R.ins[f"v{i}.{p}"]
                    ck.eq("every field is rearranged like its batch axes", f"{K.__name__} broadcast_arrays{bs}[{i}].{p}", R.outs[f"{i}.{p}"][0], np.broadcast_to(x, out + x.shape[len(b):]), where_op("broadcast_arrays"))


def negative(ck):
    """misuse that must fail to build instead of inventing or dropping elements"""
    for K in (kinds.Scal, kinds.Nest):
        v, s = kinds.make(K, (6,)), kinds.make(K, ())
        for lab, f, a in (("reshape to another size", lambda x: xnp.reshape(x, (4,)), v), ("reshape with remainder", lambda x: xnp.reshape(x, (4, -1)), v), ("reshape two unknowns", lambda x: xnp.reshape(x, (-1, -1)), v),
                          ("reshape a single", lambda x: xnp.reshape(x, (1,)), s), ("flatten a single", lambda x: xnp.flatten(x), s), ("reshape to a larger size", lambda x: x.reshape((7,)), v),
                          ("swapaxes out of range", lambda x: xnp.swapaxes(x, 0, 1), v), ("swapaxes negative out of range", lambda x: xnp.swapaxes(x, -2, 0), v), ("take_along_axis out of range", lambda x: xnp.take_along_axis(x, np.zeros((1,), int), 5), v),
                          ("order F", lambda x: xnp.reshape(x, (6,), order="F"), v), ("ravel order F", lambda x: xnp.ravel(x, order="F"), v)):
            rejects(ck, "misuse is rejected", f"{K.__name__} {lab}", f, (a,), where_op(lab.split(" ")[0]))
