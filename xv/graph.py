"""Value graph: hash-consed abstract scalars used as the abstract domain of the jaxpr analysis.

An abstract scalar is a `Node`.  Leaves are `const` (a known bit pattern) and `src` (an unknown input element, i.e. a
provenance token).  Interior nodes are value numbers: two nodes are the same object iff the analysis proved the two
expressions equal by the rewriting below (congruence, modular linear normal form, AC normal form, decision-diagram
normal form of selections over predicate atoms, permutation-select normal form for sorts).  No input value is ever chosen.
"""
from __future__ import annotations
import math
import numpy as np
import ml_dtypes

_TABLE: dict = {}
_NODES: list = []
CUR = [None]          # equation being interpreted (for provenance of reports)
LIFT_CAP = [None]        # tighter bound for the bit domain, which works on the undistributed operations
MAX_LIFT = 512        # bound on decision-diagram size before an operation is kept opaque


class Node:
    __slots__ = ("id", "op", "args", "dtype", "origin", "_rng", "_atoms")

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, args, dtype):
    k = (op, args, dtype)
    n = _TABLE.get(k)
    if n is None:
        n = Node()
        n.id = len(_NODES)
        n.op, n.args, n.dtype = op, args, dtype
        n.origin = CUR[0]
        n._rng = None
        n._atoms = None
        _TABLE[k] = n
        _NODES.append(n)
    if SUBST:
        return SUBST.get(n, n)
    return n


SUBST: dict = {}      # value numbers a partition assumes to be equal to a given node
ORDER = [None]        # partition on the order type of opaque values: f(op, a, b) -> bool or None, op in eq/lt


class partition:
    """scope in which the analysis assumes equalities between value numbers and/or an order type"""
    def __init__(self, subst=None, order=None):
        self.s, self.o = dict(subst or {}), order

    def __enter__(self):
        self.old = (dict(SUBST), ORDER[0])
        SUBST.update(self.s)
        ORDER[0] = self.o
        _APPLY.clear()

    def __exit__(self, *a):
        SUBST.clear(); SUBST.update(self.old[0])
        ORDER[0] = self.old[1]
        _APPLY.clear()


def reset():
    _TABLE.clear(); _NODES.clear(); _APPLY.clear(); _COUNT[0] = 0


_COUNT = [0]


def fresh_id():
    _COUNT[0] += 1
    return _COUNT[0]


DT = np.dtype
BOOL = DT(bool)


def is_int(dt):
    return dt.kind in "iu" or dt.name in ("int4", "uint4", "int2", "uint2")


def is_float(dt):
    return dt.kind == "f" or dt.name in ("bfloat16",) or dt.name.startswith("float8")


def width(dt):
    return dt.itemsize * 8


def const(v, dtype):
    dtype = DT(dtype)
    a = np.asarray(v)
    if a.dtype != dtype:
        with np.errstate(all="ignore"):
            a = a.astype(dtype)
    return _mk("const", (a.tobytes(),), dtype)


def cval(n):
    """numpy scalar of a const node"""
    return np.frombuffer(n.args[0], dtype=n.dtype)[0]


def is_const(n):
    return n.op == "const"


def src(name, idx, dtype, rng=None):
    n = _mk("src", (name, idx), DT(dtype))
    if rng is not None:
        n._rng = rng
    return n


def true():
    return const(True, BOOL)


def false():
    return const(False, BOOL)


# ------------------------------------------------------------------ intervals
def rng(n):
    """integer interval of a node (None when unbounded by the analysis)"""
    if n._rng is not None:
        return n._rng
    r = _rng(n)
    if r is None and is_int(n.dtype):
        ii = np.iinfo(n.dtype) if n.dtype.kind in "iu" else None
        r = (int(ii.min), int(ii.max)) if ii else None
    if n.dtype == BOOL:
        r = (0, 1)
    if r is not None:
        n._rng = r
    return r


def _dtr(dt):
    ii = np.iinfo(dt)
    return int(ii.min), int(ii.max)


def _rng(n):
    if n.op == "const":
        if is_int(n.dtype):
            v = int(cval(n)); return (v, v)
        return None
    if not is_int(n.dtype):
        return None
    full = _dtr(n.dtype) if n.dtype.kind in "iu" else None
    if full is None:
        return None
    if n.op == "ite":
        a, b = rng(n.args[1]), rng(n.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if n.op == "psel":
        rs = [rng(c) for c in n.args[2]]
        return (min(r[0] for r in rs), max(r[1] for r in rs))
    if n.op == "lin":
        lo = hi = n.args[1]
        for c, x in n.args[0]:
            r = rng(x)
            if r is None:
                return None
            cc = c
            if cc > full[1] and n.dtype.kind == "u":
                cc = cc - (1 << width(n.dtype))     # read as negative coefficient
            if cc >= 0:
                lo += cc * r[0]; hi += cc * r[1]
            else:
                lo += cc * r[1]; hi += cc * r[0]
        if lo >= full[0] and hi <= full[1]:
            return (lo, hi)
        return None
    if n.op == "cvt":
        r = rng(n.args[0]) if (is_int(n.args[0].dtype) or n.args[0].dtype == BOOL) else None
        if r and r[0] >= full[0] and r[1] <= full[1]:
            return r
        return None
    if n.op == "and":
        his = [rng(a)[1] for a in n.args if rng(a) and rng(a)[0] >= 0]
        if his:
            return (0, min(his))
        return None
    if n.op == "shr":
        r = rng(n.args[0]); s = n.args[1]
        if r and r[0] >= 0 and is_const(s):
            return (r[0] >> int(cval(s)), r[1] >> int(cval(s)))
        return None
    if n.op == "rem":
        r = rng(n.args[0]); s = rng(n.args[1])
        if r and s and r[0] >= 0 and s[0] > 0:
            return (0, min(r[1], s[1] - 1))
        return None
    if n.op == "div":
        r = rng(n.args[0]); s = rng(n.args[1])
        if r and s and r[0] >= 0 and s[0] > 0:
            return (r[0] // s[1], r[1] // s[0])
        return None
    if n.op in ("max", "min"):
        rs = [rng(a) for a in n.args]
        f = max if n.op == "max" else min
        return (f(r[0] for r in rs), f(r[1] for r in rs))
    if n.op == "popcnt":
        return (0, width(n.args[0].dtype))
    if n.op == "clz":
        return (0, width(n.dtype))
    if n.op in ("argmin", "argmax"):
        return (0, max(0, len(n.args[0].args) - 1))
    return None


# ------------------------------------------------------------------ decision-diagram selections
def is_leaf(n):
    return n.op != "ite"


_APPLY: dict = {}


def ite(c, a, b):
    """canonical selection: `c` boolean node (itself a decision diagram over atoms)"""
    if a is b:
        return a
    if c.op == "const":
        return a if bool(cval(c)) else b
    key = ("ite", c.id, a.id, b.id)
    r = _APPLY.get(key)
    if r is not None:
        return r
    if c.op == "ite":
        # c = ite(atom, x, y)
        top = c.args[0]
    else:
        top = c
    for z in (a, b):
        if z.op == "ite" and z.args[0].id < top.id:
            top = z.args[0]
        elif z.dtype == BOOL and z.op not in ("ite", "const") and z.id < top.id:
            top = z
    c1, c0 = _cof(c, top)
    a1, a0 = _cof(a, top)
    b1, b0 = _cof(b, top)
    r = _node_ite(top, ite(c1, a1, b1), ite(c0, a0, b0))
    _APPLY[key] = r
    return r


def _node_ite(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.dtype == BOOL and hi.op == "const" and lo.op == "const":
        if bool(cval(hi)) and not bool(cval(lo)):
            return atom
    return _mk("ite", (atom, hi, lo), hi.dtype)


def _cof(n, atom):
    """cofactors (n | atom=1, n | atom=0), top-level only"""
    if n is atom:
        return true(), false()
    if n.op == "ite" and n.args[0] is atom:
        return n.args[1], n.args[2]
    return n, n


def bnot(a):
    return ite(a, false(), true())


def band(*xs):
    r = true()
    for x in xs:
        r = ite(r, x, false())
    return r


def bor(*xs):
    r = false()
    for x in xs:
        r = ite(r, true(), x)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


def implies(a, b):
    """a => b is a tautology of the predicate structure"""
    return ite(a, b, true()) is true()


def leaves(n, limit=100000):
    """set of non-ite leaves of the decision diagram"""
    out, seen, st = [], set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def dd_size(n):
    if n.op != "ite":
        return 1
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        if len(seen) > MAX_LIFT:
            return len(seen)
    return len(seen)


def lift(f, *xs, key=None):
    """apply leafwise op `f` below the decision diagrams of xs (bounded)"""
    if all(x.op != "ite" or x.dtype == BOOL and False for x in xs):
        return f(*xs)
    tot = 1
    for x in xs:
        tot *= dd_size(x)
    if tot > (LIFT_CAP[0] or MAX_LIFT * 8):
        return None
    memo = {}

    def go(ys):
        k = tuple(y.id for y in ys)
        r = memo.get(k)
        if r is not None:
            return r
        top = None
        for y in ys:
            if y.op == "ite" and (top is None or y.args[0].id < top.id):
                top = y.args[0]
        if top is None:
            r = f(*ys)
        else:
            cs = [_cof(y, top) for y in ys]
            hi = go(tuple(c[0] for c in cs))
            lo = go(tuple(c[1] for c in cs))
            r = ite(top, hi, lo)
        memo[k] = r
        return r
    return go(tuple(xs))


def restrict(n, asg, memo=None):
    """restrict a decision diagram by an assignment {atom: bool} (top-level diagram only)"""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if n in asg:
        r = const(asg[n], BOOL)
    elif n.op == "ite":
        at = n.args[0]
        if at in asg:
            r = restrict(n.args[1] if asg[at] else n.args[2], asg, memo)
        else:
            r = ite(at, restrict(n.args[1], asg, memo), restrict(n.args[2], asg, memo))
    else:
        r = n
    memo[n.id] = r
    return r


# ------------------------------------------------------------------ operations on leaves
def _wrap(v, dt):
    w = width(dt)
    v &= (1 << w) - 1
    if dt.kind == "i" and v >> (w - 1):
        v -= 1 << w
    return v


def _lin_parts(n):
    if n.op == "const":
        return {}, int(cval(n))
    if n.op == "lin":
        return {x: c for c, x in n.args[0]}, n.args[1]
    return {n: 1}, 0


def _lin(parts, k, dt):
    w = width(dt)
    M = 1 << w
    ps = []
    for x, c in parts.items():
        c %= M
        if c:
            ps.append((c, x))
    k = _wrap(k, dt)
    if not ps:
        return const(np.array(k).astype(dt) if dt.kind == "i" else np.array(k, dtype=np.uint64).astype(dt), dt)
    if len(ps) == 1 and ps[0][0] == 1 and k == 0:
        return ps[0][1]
    ps.sort(key=lambda t: t[1].id)
    return _mk("lin", (tuple(ps), k), dt)


def _add2(a, b, sub=False):
    pa, ka = _lin_parts(a)
    pb, kb = _lin_parts(b)
    d = dict(pa)
    s = -1 if sub else 1
    for x, c in pb.items():
        d[x] = d.get(x, 0) + s * c
    return _lin(d, ka + s * kb, a.dtype)


def _npop(name, *vals):
    with np.errstate(all="ignore"):
        return _NP[name](*vals)


_NP = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "max": np.maximum, "min": np.minimum, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor,
    "eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
}


def np_binop(op, a, b):
    """constant folding of a binary primitive on numpy arrays/scalars of equal dtype (XLA semantics)"""
    a = np.asarray(a); b = np.asarray(b)
    dt = a.dtype
    with np.errstate(all="ignore"):
        if op in _NP:
            r = _NP[op](a, b)
            return r if op in ("eq", "ne", "lt", "le", "gt", "ge") else r.astype(dt)
        if op == "div":
            if is_int(dt):
                bz = np.where(b == 0, 1, b)
                q = np.trunc(a.astype(object) / bz.astype(object)) if False else None
                q = (np.abs(a.astype(np.int64)) // np.abs(bz.astype(np.int64))) * np.sign(a.astype(np.int64)) * np.sign(bz.astype(np.int64)) \
                    if dt.itemsize < 8 else a // bz
                return np.where(b == 0, -1, q).astype(dt)
            return (a / b).astype(dt)
        if op == "rem":
            if is_int(dt):
                bz = np.where(b == 0, 1, b)
                return np.where(b == 0, a, np.fmod(a, bz)).astype(dt)
            return np.fmod(a, b).astype(dt)
        if op == "shl":
            w = width(dt)
            return np.where((b >= 0) & (b < w), np.left_shift(a, np.where((b >= 0) & (b < w), b, 0).astype(dt)), 0).astype(dt)
        if op == "shr":
            w = width(dt)
            u = a.astype(np.dtype("u%d" % dt.itemsize))
            s = np.where((b >= 0) & (b < w), b, 0).astype(u.dtype)
            return np.where((b >= 0) & (b < w), np.right_shift(u, s), 0).astype(dt)
        if op == "sar":
            w = width(dt)
            s = np.where((b >= 0) & (b < w), b, w - 1).astype(dt)
            return np.right_shift(a, s).astype(dt)
        if op == "pow":
            return np.power(a, b).astype(dt)
        if op == "atan2":
            return np.arctan2(a, b).astype(dt)
        if op == "nextafter":
            return np.nextafter(a, b).astype(dt)
    raise KeyError(op)


def _pmap(n, f):
    """push a unary transformation inside a permutation-select"""
    perm, i, cands = n.args
    return psel(perm, i, tuple(f(c) for c in cands))


def psel(perm, i, cands):
    """value at sorted position i of the candidates `cands` permuted by permutation token `perm`"""
    c0 = cands[0]
    if all(c is c0 for c in cands):
        return c0
    return _mk("psel", (perm, i, tuple(cands)), c0.dtype)


def binop(op, a, b):
    if a.dtype == BOOL and op in _BOOLOPS:
        return _boolbin(op, a, b)
    r = lift(lambda x, y: _binleaf(op, x, y), a, b)
    if r is None:
        r = _opaque_bin(op, a, b)
    return r


def _opaque_bin(op, a, b):
    dt = BOOL if op in ("eq", "ne", "lt", "le", "gt", "ge") else a.dtype
    if op in ("gt", "ge"):
        a, b = b, a
        op = {"gt": "lt", "ge": "le"}[op]
    if op == "ne":
        return bnot(_opaque_bin("eq", a, b))
    if op in ("eq", "add", "mul", "and", "or", "xor", "max", "min") and b.id < a.id:
        a, b = b, a
    return _mk(op, (a, b), dt)


def _binleaf(op, a, b):
    dt = a.dtype
    if is_const(a) and is_const(b):
        v = np_binop(op, cval(a), cval(b))
        return const(v, BOOL if op in ("eq", "ne", "lt", "le", "gt", "ge") else dt)
    if dt == BOOL:
        return _boolbin(op, a, b)
    if ORDER[0] is not None and op in ("max", "min") and a is not b:
        r = ORDER[0]("lt", a, b)
        if r is not None:
            return a if r == (op == "min") else b
    # permutation-select pushing
    if a.op == "psel" and is_const(b):
        return _pmap(a, lambda c: binop(op, c, b))
    if b.op == "psel" and is_const(a):
        return _pmap(b, lambda c: binop(op, a, c))
    if a.op == "psel" and b.op == "psel" and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
        return psel(a.args[0], a.args[1], tuple(binop(op, x, y) for x, y in zip(a.args[2], b.args[2])))
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        return _cmp(op, a, b)
    if is_int(dt):
        if op == "add":
            return _add2(a, b)
        if op == "sub":
            return _add2(a, b, True)
        if op == "mul":
            if is_const(a):
                a, b = b, a
            if is_const(b):
                k = int(cval(b))
                p, c = _lin_parts(a)
                return _lin({x: v * k for x, v in p.items()}, c * k, dt)
        if op == "and":
            return _ac("and", a, b)
        if op == "or":
            return _ac("or", a, b)
        if op == "xor":
            return _ac("xor", a, b)
        if op in ("shl", "shr", "sar") and is_const(b):
            s = int(cval(b)); w = width(dt)
            if s == 0:
                return a
            if op != "sar" and (s >= w or s < 0):
                return const(0, dt)
            if op == "shl":
                p, c = _lin_parts(a)
                return _lin({x: v << s for x, v in p.items()}, c << s, dt)
            if op == "sar":
                r = rng(a)
                if r and r[0] >= 0:
                    op = "shr"
            if op == "shr":
                r = rng(a)
                if r and r[0] >= 0 and (r[1] >> s) == (r[0] >> s):
                    return const(r[0] >> s, dt)
                if a.op == "shr" and is_const(a.args[1]):
                    return _binleaf("shr", a.args[0], const(s + int(cval(a.args[1])), b.dtype))
        if op in ("div", "rem") and is_const(b) and int(cval(b)) > 0:
            k = int(cval(b))
            r = rng(a)
            if r and r[0] >= 0:
                if r[1] < k:
                    return a if op == "rem" else const(0, dt)
                if k & (k - 1) == 0:
                    if op == "rem":
                        return _binleaf("and", a, const(k - 1, dt))
                    return _binleaf("shr", a, const(k.bit_length() - 1, dt))
        if op in ("max", "min"):
            ra, rb = rng(a), rng(b)
            if ra and rb:
                if ra[0] >= rb[1]:
                    return a if op == "max" else b
                if rb[0] >= ra[1]:
                    return b if op == "max" else a
            if a is b:
                return a
    else:
        if op == "mul" and is_const(b) and float(cval(b)) == 1.0:
            return a
        if op in ("max", "min") and a is b:
            return a
    return _opaque_bin(op, a, b)


def reduce_many(op, xs):
    """n-ary form of repeated binop for associative-commutative integer operations, or None"""
    dt = xs[0].dtype
    if len(xs) < 8 or dt == BOOL or not is_int(dt) or op not in ("add", "and", "or", "xor") or any(not is_leaf(x) or x.op == "psel" for x in xs):
        return None
    if op == "add":
        d, k = {}, 0
        for x in xs:
            p, c = _lin_parts(x)
            k += c
            for y, v in p.items():
                d[y] = d.get(y, 0) + v
        return _lin(d, k, dt)
    return _ac(op, *xs)


def _ac(op, *zs_):
    dt = zs_[0].dtype
    w = width(dt)
    full = (1 << w) - 1
    items, k = [], (full if op == "and" else 0)
    for z in zs_:
        zs = z.args if z.op == op else (z,)
        for y in zs:
            if is_const(y):
                v = int(cval(y)) & full
                k = (k & v) if op == "and" else (k | v) if op == "or" else (k ^ v)
            else:
                items.append(y)
    if op == "xor":
        cnt = {}
        for y in items:
            cnt[y] = cnt.get(y, 0) ^ 1
        items = [y for y, c in cnt.items() if c]
    else:
        items = list(dict.fromkeys(items))
    if op == "and":
        if k == 0:
            return const(0, dt)
        if items and len(items) == 1:
            r = rng(items[0])
            if r and r[0] >= 0 and k & (k + 1) == 0 and r[1] <= k:
                return items[0]
    if op == "or" and k == full:
        return const(np.array(-1).astype(dt) if dt.kind == "i" else full, dt)
    neutral = full if op == "and" else 0
    if k != neutral or not items:
        items.append(const(np.array(_wrap(k, dt)).astype(dt) if dt.kind == "i" else np.array(k, dtype=np.uint64).astype(dt), dt))
    items.sort(key=lambda n: n.id)
    if len(items) == 1:
        return items[0]
    return _mk(op, tuple(items), dt)


_BOOLOPS = {"and", "mul", "min", "or", "add", "max", "xor", "ne", "eq", "lt", "gt", "le", "ge"}


def _boolbin(op, a, b):
    if op in ("and", "mul", "min"):
        return band(a, b)
    if op in ("or", "add", "max"):
        return bor(a, b)
    if op in ("xor", "ne"):
        return bxor(a, b)
    if op == "eq":
        return bnot(bxor(a, b))
    if op == "lt":
        return band(bnot(a), b)
    if op == "gt":
        return band(a, bnot(b))
    if op == "le":
        return bor(bnot(a), b)
    if op == "ge":
        return bor(a, bnot(b))
    return _mk(op, (a, b), BOOL)


def _cmp(op, a, b):
    dt = a.dtype
    if op in ("gt", "ge"):
        return _cmp({"gt": "lt", "ge": "le"}[op], b, a)
    if op == "ne":
        return bnot(_cmp("eq", a, b))
    if ORDER[0] is not None and (a is not b or not is_int(dt)) and not (is_const(a) and is_const(b)):
        if op == "le":
            r = ORDER[0]("lt", b, a)
            r = None if r is None else not r
        else:
            r = ORDER[0](op, a, b)
        if r is not None:
            return const(r, BOOL)
    if is_int(dt):
        if a is b:
            return const(op in ("eq", "le"), BOOL)
        ra, rb = rng(a), rng(b)
        if ra and rb:
            if op == "lt":
                if ra[1] < rb[0]: return true()
                if ra[0] >= rb[1]: return false()
            if op == "le":
                if ra[1] <= rb[0]: return true()
                if ra[0] > rb[1]: return false()
            if op == "eq" and (ra[1] < rb[0] or rb[1] < ra[0]):
                return false()
        if op == "le":
            return bnot(_cmp("lt", b, a))
        if op == "eq":
            pa, ka = _lin_parts(a); pb, kb = _lin_parts(b)
            d = dict(pa)
            for x, c in pb.items():
                d[x] = d.get(x, 0) - c
            M = 1 << width(dt)
            d = {x: c % M for x, c in d.items() if c % M}
            if not d:
                return const((ka - kb) % M == 0, BOOL)
            # (x and mask) style parity facts: all coefficients even, odd constant
            if all(c % 2 == 0 for c in d.values()) and (kb - ka) % 2 == 1:
                return false()
        if op == "lt":
            # x + c < x + d without overflow
            pa, ka = _lin_parts(a); pb, kb = _lin_parts(b)
            if pa == pb and rng(a) != _dtr(dt) and rng(b) != _dtr(dt) and pa:
                if _nowrap(a) and _nowrap(b):
                    return const(ka < kb, BOOL)
            if is_const(b) and int(cval(b)) == rng(a)[0] + 1:      # x < min+1  <=>  x == min
                return _cmp("eq", a, const(rng(a)[0], dt))
            if is_const(a) and int(cval(a)) == rng(b)[0]:          # min < x  <=>  x != min
                return bnot(_cmp("eq", b, const(rng(b)[0], dt)))
            if is_const(b) and int(cval(b)) == rng(a)[1]:          # x < max <=> x != max
                return bnot(_cmp("eq", a, const(rng(a)[1], dt)))
            if is_const(a) and int(cval(a)) == rng(b)[1] - 1:
                return _cmp("eq", b, const(rng(b)[1], dt))
            if is_const(b):
                # canonical constant on the right: x < c ; constant on the left: not (x < c+1)
                pass
            elif is_const(a):
                return bnot(_cmp("lt", b, const(int(cval(a)) + 1, dt)))
            if is_const(b) and a.op == "lin" and len(a.args[0]) == 1 and a.args[0][0][0] == 1 and a.args[1] and _nowrap(a):
                c2 = int(cval(b)) - a.args[1]
                lo, hi = _dtr(dt)
                if lo <= c2 <= hi:
                    return _cmp("lt", a.args[0][0][1], const(np.array(c2, dtype=object).astype(dt), dt))
        if op == "eq" and is_const(b) and a.op == "lin" and len(a.args[0]) == 1 and a.args[0][0][0] == 1:
            return _cmp("eq", a.args[0][0][1], const(np.array(_wrap(int(cval(b)) - a.args[1], dt), dtype=object).astype(dt), dt))
        if op == "eq" and is_const(a) and b.op == "lin":
            return _cmp("eq", b, a)
    if op == "eq" and b.id < a.id:
        a, b = b, a
    return _mk(op, (a, b), BOOL)


def _nowrap(n):
    """interval arithmetic proves the linear form does not wrap"""
    if n.op != "lin":
        return True
    full = _dtr(n.dtype)
    lo = hi = n.args[1]
    for c, x in n.args[0]:
        r = rng(x)
        cc = c if c <= full[1] else c - (1 << width(n.dtype))
        if cc >= 0:
            lo += cc * r[0]; hi += cc * r[1]
        else:
            lo += cc * r[1]; hi += cc * r[0]
    return lo >= full[0] and hi <= full[1]


# ------------------------------------------------------------------ unary / conversion
def unop(op, a, extra=()):
    r = lift(lambda x: _unleaf(op, x, extra), a)
    return r if r is not None else _mk(op, (a,) + tuple(extra), BOOL if op == "isfinite" else a.dtype)


_NPU = {"neg": np.negative, "abs": np.abs, "sign": np.sign, "exp": np.exp, "log": np.log, "sqrt": np.sqrt,
        "floor": np.floor, "ceil": np.ceil, "isfinite": np.isfinite, "log1p": np.log1p, "tanh": np.tanh,
        "exp2": np.exp2, "sin": np.sin, "cos": np.cos, "expm1": np.expm1}


def _unleaf(op, a, extra):
    dt = a.dtype
    if op == "not":
        if dt == BOOL:
            return bnot(a)
        if is_const(a):
            return const(~cval(a), dt)
        return binop("xor", a, const(np.array(-1).astype(dt) if dt.kind == "i" else (1 << width(dt)) - 1, dt))
    if op == "neg" and is_int(dt):
        return binop("sub", const(0, dt), a)
    if is_const(a):
        if op in _NPU:
            with np.errstate(all="ignore"):
                return const(_NPU[op](cval(a)), BOOL if op == "isfinite" else dt)
        if op == "popcnt":
            return const(bin(int(cval(a)) & ((1 << width(dt)) - 1)).count("1"), dt)
        if op == "clz":
            return const(width(dt) - (int(cval(a)) & ((1 << width(dt)) - 1)).bit_length(), dt)
        if op == "ipow":
            return const(cval(a) ** extra[0], dt)
    if op == "ipow" and is_int(dt):
        r = const(1, dt)
        for _ in range(extra[0]):
            r = binop("mul", r, a)
        return r
    if a.op == "psel":
        return _pmap(a, lambda c: unop(op, c, extra))
    if op == "isfinite" and is_int(dt):
        return true()
    if op == "abs" and is_int(dt) and rng(a)[0] >= 0:
        return a
    return _mk(op, (a,) + tuple(extra), BOOL if op == "isfinite" else dt)


def cvt(a, dt):
    dt = DT(dt)
    if a.dtype == dt:
        return a
    key = ("cvt", a.id, dt, LIFT_CAP[0])
    r = _APPLY.get(key)
    if r is None:
        r = lift(lambda x: _cvtleaf(x, dt), a)
        if r is None:
            r = _mk("cvt", (a,), dt)
        _APPLY[key] = r
    return r


def _cvtleaf(a, dt):
    if is_const(a):
        return const(cval(a), dt) if not (is_float(a.dtype) and is_int(dt)) else const(_f2i(cval(a), dt), dt)
    if a.op == "psel":
        return _pmap(a, lambda c: cvt(c, dt))
    if a.dtype == BOOL and (is_int(dt) or is_float(dt)):
        return ite(a, const(1, dt), const(0, dt))
    if dt == BOOL:
        return binop("ne", a, const(0, a.dtype))
    if is_int(a.dtype) and is_int(dt):
        wa, wd = width(a.dtype), width(dt)
        if a.op == "cvt" and is_int(a.args[0].dtype):
            inner = a.args[0]
            wi = width(inner.dtype)
            # composition of integer conversions: x -> A -> D
            if wa >= wi and (inner.dtype.kind == a.dtype.kind or inner.dtype.kind == "u" and wa > wi) or wd <= wa and wd <= wi:
                return cvt(inner, dt)
            r = rng(inner)
            if r and _dtr(a.dtype)[0] <= r[0] and r[1] <= _dtr(a.dtype)[1]:
                return cvt(inner, dt)
        # linear forms: push narrowing (ring homomorphism) and exact widenings
        if a.op == "lin":
            if wd <= wa:
                d, k = {}, a.args[1]
                acc = const(np.array(_wrap(k, dt), dtype=object).astype(dt), dt)
                for c, x in a.args[0]:
                    acc = _add2(acc, _binleaf("mul", cvt(x, dt), const(np.array(_wrap(c, dt), dtype=object).astype(dt), dt)))
                return acc
            if _nowrap(a):
                acc = const(np.array(_wrap(a.args[1], dt), dtype=object).astype(dt), dt)
                full = _dtr(a.dtype)
                for c, x in a.args[0]:
                    cc = c if c <= full[1] else c - (1 << wa)
                    acc = _add2(acc, _binleaf("mul", cvt(x, dt), const(np.array(_wrap(cc, dt), dtype=object).astype(dt), dt)))
                return acc
        if wd <= wa and a.op in ("and", "or", "xor"):
            r = None
            for x in a.args:
                y = cvt(x, dt)
                r = y if r is None else binop(a.op, r, y)
            return r
    return _mk("cvt", (a,), dt)


def _f2i(v, dt):
    v = float(v)
    lo, hi = _dtr(dt)
    if math.isnan(v):
        return np.array(0, dtype=dt)
    return np.array(int(max(lo, min(hi, math.trunc(v)))) if math.isfinite(v) else (hi if v > 0 else lo), dtype=object).astype(dt)


def bitcast(a, dt):
    """same width bitcast"""
    dt = DT(dt)
    if a.dtype == dt:
        return a

    def f(x):
        if is_const(x):
            return _mk("const", (x.args[0],), dt)
        if x.op == "bitcast":
            return bitcast(x.args[0], dt)
        if x.op == "psel":
            return _pmap(x, lambda c: bitcast(c, dt))
        if is_int(x.dtype) and is_int(dt):
            return cvt(x, dt)
        return _mk("bitcast", (x,), dt)
    r = lift(f, a)
    return r if r is not None else _mk("bitcast", (a,), dt)


def byte_of(a, k, dt):
    """k-th (little endian) chunk of width(dt) of node a"""
    dt = DT(dt)

    def f(x):
        if is_const(x):
            w = dt.itemsize
            return _mk("const", (x.args[0][k * w:(k + 1) * w],), dt)
        if x.op == "psel":
            return _pmap(x, lambda c: byte_of(c, k, dt))
        if is_int(x.dtype):
            u = cvt(x, DT("u%d" % x.dtype.itemsize))
            return bitcast(cvt(binop("shr", u, const(k * width(dt), u.dtype)), DT("u%d" % dt.itemsize)), dt)
        if x.op == "bitcast" and is_int(x.args[0].dtype):
            return byte_of(x.args[0], k, dt)
        if x.op == "join":
            parts = x.args
            pw = width(parts[0].dtype); w = width(dt)
            if w == pw:
                return bitcast(parts[k], dt)
            if w < pw:
                return byte_of(parts[k * w // pw], k % (pw // w), dt)
        return _mk("chunk", (x, k), dt)
    r = lift(f, a)
    return r if r is not None else _mk("chunk", (a, k), dt)


def join_bytes(parts, dt):
    """inverse of byte_of: concatenates little-endian chunks"""
    dt = DT(dt)
    if all(is_const(p) for p in parts):
        return _mk("const", (b"".join(p.args[0] for p in parts),), dt)
    if is_int(dt):
        r = const(0, dt)
        for k, p in enumerate(parts):
            u = bitcast(p, DT("u%d" % p.dtype.itemsize))
            r = binop("or", r, binop("shl", cvt(u, dt), const(k * width(p.dtype), dt)))
        b = _rejoin(parts, dt)
        return b if b is not None else r
    b = _rejoin(parts, dt)
    return b if b is not None else _mk("join", tuple(parts), dt)


def _rejoin(parts, dt):
    if all(p.op == "chunk" for p in parts) and len({p.args[0] for p in parts}) == 1 and [p.args[1] for p in parts] == list(range(len(parts))) \
            and width(parts[0].args[0].dtype) == width(dt):
        return bitcast(parts[0].args[0], dt)
    return None


# ------------------------------------------------------------------ arrays as nodes
def arr_node(elems, shape):
    """interned array value; recognises an unmodified scatter/loop result"""
    e0 = elems[0] if len(elems) else None
    if e0 is not None and e0.op == "elt" and e0.args[1] == 0:
        s = e0.args[0]
        if s.args and len(elems) == arr_size(s) and all(e.op == "elt" and e.args[0] is s and e.args[1] == i for i, e in enumerate(elems)):
            return s
    return _mk("arr", (tuple(elems), tuple(shape)), e0.dtype if e0 is not None else None)


def arr_size(s):
    if s.op == "arr":
        return len(s.args[0])
    if s.op == "scatter":
        return arr_size(s.args[0])
    if s.op == "opaquearr":
        return s.args[-1]
    return -1


def mk(op, args, dtype):
    return _mk(op, args, DT(dtype) if dtype is not None else None)


# ------------------------------------------------------------------ printing / traversal
def children(n):
    out = []
    for a in n.args:
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Node):
                    out.append(b)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, Node):
                            out.append(c)
                        elif isinstance(c, tuple):
                            out += [d for d in c if isinstance(d, Node)]
    return out


def walk(roots, stop=None):
    """all nodes reachable from roots"""
    seen, st = set(), list(roots)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if stop is not None and stop(n):
            continue
        st.extend(children(n))


def sources(roots, stop=None):
    return {n for n in walk(roots, stop) if n.op == "src"}


def show(n, depth=3):
    if n.op == "const":
        return f"{cval(n)}"
    if n.op == "src":
        return f"{n.args[0]}{list(n.args[1]) if n.args[1] != () else ''}"
    if depth <= 0:
        return f"#{n.id}:{n.op}"
    if n.op == "lin":
        return "(" + " + ".join(f"{c}*{show(x, depth-1)}" if c != 1 else show(x, depth - 1) for c, x in n.args[0]) + (f" + {n.args[1]}" if n.args[1] else "") + ")"
    if n.op == "psel":
        return f"sorted{n.args[0].id}[{n.args[1]}]"
    if n.op == "ite":
        return f"({show(n.args[0], depth-1)} ? {show(n.args[1], depth-1)} : {show(n.args[2], depth-1)})"
    if n.op == "arr":
        return f"arr#{n.id}{n.args[1]}"
    return f"{n.op}(" + ", ".join(show(a, depth - 1) if isinstance(a, Node) else str(a)[:20] for a in n.args[:4]) + ")"
