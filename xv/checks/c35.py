"""C35 text form: provenance of the items handed to the item formatter, and their order in the produced text."""
import os, re
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
from ..hashkinds import env
from xtructure import xtructure_dataclass, FieldDescriptor as F
from xtructure.core.xtructure_decorators import annotate

ITEM = "each printed item is the item at its position"
ORDER = "the text shows the items in order, the middle of a long axis replaced by an ellipsis"
SINGLE = "a single instance prints as its own formatter writes it"
KW = "formatting options reach the formatter of every item"
PURE = "printing leaves the instance as it was"
ODD = "an instance whose fields disagree prints as unstructured"

LOG = []


def own_text(self, **kw):
    LOG.append((self, kw))
    return f"<{len(LOG) - 1}>" + "_" * 20


def mkclass(name, ann, **members):
    return xtructure_dataclass(type(name, (), dict(members, __annotations__=ann, __module__="xv.generated")))


def plan(batch):
    """rows of the printed table: batch indices, None for an ellipsis"""
    S, M = annotate.SHOW_BATCH_SIZE, annotate.MAX_PRINT_BATCH_SIZE
    cut = lambda n, lim: list(range(n)) if n <= lim else list(range(S)) + [None] + list(range(n - S, n))
    if len(batch) == 2:
        return [[None if r is None or c is None else (r, c) for c in cut(batch[1], 2 * S)] for r in cut(batch[0], 2 * S)]
    n = int(np.prod(batch))
    return [[None if k is None else tuple(int(q) for q in np.unravel_index(k, batch)) for k in cut(n, M)]]


def text_of(s):
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


def run(ck):
    ck.assume += ["batch shapes are enumerated around both thresholds; field contents are symbolic", "the console is wide enough for one row (column wrapping belongs to the rendering library)"]
    S, M = annotate.SHOW_BATCH_SIZE, annotate.MAX_PRINT_BATCH_SIZE
    A = mkclass("Inner", {"u": F.scalar(dtype=jnp.uint8), "v": F.tensor(dtype=jnp.float32, shape=(2,))})
    classes = [(mkclass("Plain", {"a": F.scalar(dtype=jnp.uint8), "b": F.tensor(dtype=jnp.float32, shape=(2,))}, __str__=own_text), [("a", "uint8", ()), ("b", "float32", (2,))], lambda K, b: K(a=sds(b, np.uint8), b=sds(b + (2,), np.float32))),
               (mkclass("Outer", {"n": F.scalar(dtype=A), "k": F.scalar(dtype=jnp.int32)}, __str__=own_text), [("n.u", "uint8", ()), ("n.v", "float32", (2,)), ("k", "int32", ())],
                lambda K, b: K(n=A(u=sds(b, np.uint8), v=sds(b + (2,), np.float32)), k=sds(b, np.int32)))]
    one = [(0,), (1,), (2,), (S,), (2 * S,), (2 * S + 1,), (M,), (M + 1,), (M + 7,), (3 * M,), (1000,), (65537,)]
    two = [(1, 1), (2, 3), (2 * S, 2 * S), (2 * S + 1, 2), (2, 2 * S + 1), (2 * S + 3, 2 * S + 1), (0, 2), (2, 0), (1, M + 1), (40, 2 * S + 1), (2 * S + 1, 40), (2 * M + 5, 1), (1000, 3), (130, 70)]
    three = [(1, 2, 2), (2, 1, 3), (2, M, 2), (3, 3, M), (1, 1, 1, 2), (M, 1, 2)]
    with env(COLUMNS="4000"):
        for K, fields, make in classes:
            w = where_of(K.str)
            for b in one + two + three:
                batched(ck, K, fields, make, b, w)
            single(ck, K, fields, make, w)
        default_text(ck, A)
        odd(ck, classes)


def traced(ck, rule, inst, K, make, b, show):
    def f(v):
        del LOG[:]
        before = jax.tree_util.tree_leaves(v)
        t = show(v)
        texts.append((t, [k for _, k in LOG], [type(x) for x, _ in LOG]))
        same.append(all(p is q for p, q in zip(before, jax.tree_util.tree_leaves(v))))
        return [x for x, _ in LOG]
    texts, same = [], []
    R = go(ck, rule, inst, f, (make(K, b),), ["v"])
    return (None, None, None) if R is None else (R, texts[-1], same[-1])


def batched(ck, K, fields, make, b, w):
    for lab, show, kw in (("str()", lambda v: str(v), {}), (".str()", lambda v: v.str(), {}), (".str(option)", lambda v: v.str(color=3, deep=True), dict(color=3, deep=True))):
        I = f"{K.__name__}{b} {lab}"
        R, t, same = traced(ck, ITEM, I, K, make, b, show)
        if R is None:
            continue
        text, kws, types = t
        want = [ix for row in plan(b) for ix in row if ix is not None]
        ck.ob(PURE, I, same, "the instance's fields were replaced", w)
        toks = [[int(x[1:-1]) if x != "..." else None for x in re.findall(r"<\d+>|\.\.\.", line)] for line in text_of(text).splitlines()]
        got = [r for r in toks if r]
        calls = {}                      # formatter call -> index printed there
        exp = [r for r in plan(b) if r]
        ok = [len(r) for r in got] == [len(r) for r in exp]
        if ok:
            for g, e in zip(got, exp):
                for x, ix in zip(g, e):
                    ok = ok and (x is None) == (ix is None)
                    if x is not None and ix is not None:
                        calls[x] = ix
        if not ck.ob(ORDER, I, ok, f"shows {got} for {exp}", w):
            continue
        ck.ob(ITEM, I + " class", all(c is K for c in types), types, w)
        for q, ix in calls.items():
            for p, dt, sh in fields:
                ck.eq(ITEM, f"{I} {ix} {p}", R.outs[f"{q}.{p}"][0], R.ins["v." + p][ix], w)
            ck.ob(KW, f"{I} {ix}", kws[q] == kw, kws[q], w)
        flat = text_of(text)
        ck.ob("the frame names the class and the batch shape", I, K.__name__ in flat and str(b) in flat, flat[:200], w)


def single(ck, K, fields, make, w):
    for lab, show, kw in (("str()", lambda v: str(v), {}), (".str()", lambda v: v.str(), {}), (".str(option)", lambda v: v.str(color=3), dict(color=3))):
        I = f"{K.__name__}() {lab}"
        R, t, same = traced(ck, SINGLE, I, K, make, (), show)
        if R is None:
            continue
        text, kws, types = t
        ck.ob(SINGLE, I, text == "<0>" + "_" * 20 and len(kws) == 1, text, w)
        ck.ob(KW, I, kws[:1] == [kw], kws, w)
        ck.ob(PURE, I, same, "", w)
        if len(kws) == 1:
            for p, dt, sh in fields:
                ck.eq(SINGLE, f"{I} {p}", R.outs[f"0.{p}"][0], R.ins["v." + p], w)


class Leaf:
    """a field value known only by its shape, its type and a text of its own; indexing it names the item"""
    def __init__(self, name, shape, dtype, extra=""):
        self.name, self.shape, self.dtype, self.ndim, self.extra = name, tuple(shape), np.dtype(dtype), len(shape), extra

    def __getitem__(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        return Leaf(self.name + "@" + "_".join(str(int(i)) for i in ix), self.shape[len(ix):], self.dtype, self.extra)

    def __str__(self):
        return f"[[{self.name}]]{self.extra}"


EXTRAS = [("one line", ""), ("several lines", "\n" + "\n".join(f"row {k} " + "abc" * 15 for k in range(12)) + " end"), ("one long line", " " + "0123456789" * 300 + " end")]


def default_text(ck, A):
    """without a formatter of its own, a structure prints every field once, under its name, in declared order, with the field's whole text"""
    B = mkclass("Twice", {"x": F.scalar(dtype=jnp.int32), "n": F.scalar(dtype=A), "w": F.tensor(dtype=jnp.uint16, shape=(3,))})
    C = mkclass("Thrice", {"q": F.scalar(dtype=B), "z": F.scalar(dtype=jnp.bool_)})
    w = where_of(B.str)
    for el, extra in EXTRAS:
        a = lambda pre, b=(): A(u=Leaf(pre + "u", b, "uint8", extra), v=Leaf(pre + "v", b + (2,), "float32", extra))
        bb = lambda pre, b=(): B(x=Leaf(pre + "x", b, "int32", extra), n=a(pre + "n.", b), w=Leaf(pre + "w", b + (3,), "uint16", extra))
        cc = lambda pre, b=(): C(q=bb(pre + "q.", b), z=Leaf(pre + "z", b, "bool", extra))
        wb = lambda pre: [("x", pre + "x"), ("u", pre + "n.u"), ("v", pre + "n.v"), ("w", pre + "w")]
        for lab, K, mk, want in (("flat", A, a, [("u", "u"), ("v", "v")]), ("nested", B, bb, wb("")), ("nested twice", C, cc, wb("q.") + [("z", "z")])):
            for nm, show in (("str()", str), (".str()", lambda q: q.str()), (".str(option)", lambda q: q.str(option=2))):
                I = f"{lab} {el} {nm}"
                t = guard(ck, SINGLE, I, lambda: call_repo(lambda: show(mk(""))))
                if t is not None:
                    flat = text_of(t)
                    got = re.findall(r"(\w+):\s*\[\[([\w.]+)\]\]", flat)
                    ck.ob(SINGLE, f"{I}: every field once, under its name, in declared order", got == want and K.__name__ in flat, flat[:400], w)
                    line = " ".join(flat.split())
                    for f, name in want:
                        ck.ob(SINGLE, f"{I}: the whole text of field {name}", f"{f}: [[{name}]]" + (" " + " ".join(extra.split()) if extra else "") in line, flat[:400], w)
                if el == "one long line":
                    continue
                for b in ((2,), (2, 2), (1, 2, 2)):
                    t = guard(ck, ITEM, f"{I} {b}", lambda: call_repo(lambda: show(mk("", b))))
                    if t is None:
                        continue
                    one = el == "one line"      # side by side, the lines of several items mix
                    got = re.findall(r"(\w+):\s*\[\[([\w.]+)@([\d_]+)\]\]" if one else r"(.*?)\[\[([\w.]+)@([\d_]+)\]\]", text_of(t))
                    got = [(f if one else "", n, i) for f, n, i in got]
                    exp = sorted((f if one else "", n, "_".join(map(str, ix))) for f, n in want for ix in np.ndindex(*b))
                    ck.ob(ITEM, f"{I} {b}: every field of every item once", sorted(got) == exp, f"{got} for {exp}", w)


def call_repo(f):
    try:
        return f()
    except Exception as e:
        raise TraceError(e, repo_frame(e))


def odd(ck, classes):
    K, fields, _ = classes[0]
    w = where_of(K.str)
    for lab, a, b in (("batches disagree", (3,), (4, 2)), ("one field single", (), (3, 2)), ("trailing shape wrong", (3,), (3, 5)), ("rank too low", (), ())):
        for nm, show in (("str()", lambda v: str(v)), (".str(option)", lambda v: v.str(color=1))):
            def f(x, y):
                del LOG[:]
                v = K(a=x, b=y)
                out.append(show(v))
                return [q for q, _ in LOG]
            out = []
            R = go(ck, ODD, f"{lab} {nm}", f, (sds(a, np.uint8), sds(b, np.float32)), ["a", "b"])
            if R is not None:
                ck.ob(ODD, f"{lab} {nm}", len(R.flat) == 0 and "nstructured" in out[-1] and K.__name__ in out[-1], out[-1][:200], w)
