"""Bit-provenance domain: the bits of a value-graph node as boolean decision diagrams over the bits of the input elements.

An input bit is the boolean node bit(src, k).  Shifts, masks, carries-free sums, conversions, bitcasts and joins move bits;
anything else yields bits of its own (bit(node, k)), so equality of bit lists is sound and never merges different values."""
from __future__ import annotations
from . import graph as G

_MEMO: dict = {}
F, T = None, None


def reset():
    _MEMO.clear()


def leafbit(x, k):
    return G.mk("bit", (x, k), G.BOOL)


def _const_bits(n):
    v = int.from_bytes(n.args[0], "little")
    return [G.true() if v >> k & 1 else G.false() for k in range(G.width(n.dtype))]


def bits(n):
    """little-endian list of boolean nodes; a boolean node has one bit"""
    r = _MEMO.get(n.id)
    if r is None or r[0] is not n:
        r = _MEMO[n.id] = (n, _bits(n))
    return r[1]


def blast(b):
    """boolean node with comparisons of integers against constants / equalities expanded into bits"""
    key = ("b", b.id)
    r = _MEMO.get(key)
    if r is not None and r[0] is b:
        return r[1]
    if b.op == "const" or b.op in ("bit", "src"):
        o = b
    elif b.op == "ite":
        o = G.ite(blast(b.args[0]), blast(b.args[1]), blast(b.args[2]))
    elif b.op == "eq" and G.is_int(b.args[0].dtype):
        o = G.true()
        for x, y in zip(bits(b.args[0]), bits(b.args[1])):
            o = G.band(o, G.bnot(G.bxor(x, y)))
    elif b.op == "lt" and G.is_int(b.args[0].dtype):
        xs, ys = list(bits(b.args[0])), list(bits(b.args[1]))
        if b.args[0].dtype.kind == "i":
            xs[-1], ys[-1] = ys[-1], xs[-1]
        o = G.false()
        for x, y in zip(xs, ys):
            o = G.bor(G.band(G.bnot(x), y), G.band(G.bnot(G.bxor(x, y)), o))
    else:
        o = b
    _MEMO[key] = (b, o)
    return o


def _own(n):
    w = 1 if n.dtype == G.BOOL else G.width(n.dtype)
    r = G.rng(n) if G.is_int(n.dtype) else None
    top = r[1].bit_length() if r and r[0] >= 0 else w
    return [leafbit(n, k) if k < top else G.false() for k in range(w)]


def _add(a, b):
    """sum of two bit vectors; only resolved when no position can carry"""
    out = []
    for x, y in zip(a, b):
        if G.band(x, y) is not G.false():
            return None
        out.append(G.bor(x, y))
    return out


def _bits(n):
    dt = n.dtype
    if dt == G.BOOL:
        return [blast(n)]
    w = G.width(dt)
    op = n.op
    if op == "const":
        return _const_bits(n)
    if op == "ite":
        c = blast(n.args[0])
        return [G.ite(c, x, y) for x, y in zip(bits(n.args[1]), bits(n.args[2]))]
    if not G.is_int(dt):
        if op == "bitcast":
            return bits(n.args[0])
        if op == "join":
            return [b for p in n.args for b in bits(p)]
        return _own(n)
    if op in ("and", "or", "xor"):
        f = {"and": G.band, "or": G.bor, "xor": G.bxor}[op]
        r = bits(n.args[0])
        for a in n.args[1:]:
            r = [f(x, y) for x, y in zip(r, bits(a))]
        return r
    if op == "cvt" and (G.is_int(n.args[0].dtype) or n.args[0].dtype == G.BOOL):
        a = n.args[0]
        b = bits(a)
        if len(b) >= w:
            return b[:w]
        return b + [b[-1] if a.dtype.kind == "i" else G.false()] * (w - len(b))
    if op == "bitcast":
        return bits(n.args[0])
    if op == "chunk":
        return bits(n.args[0])[n.args[1] * w:(n.args[1] + 1) * w]
    if op in ("shl", "shr", "sar") and G.is_const(n.args[1]):
        k = int(G.cval(n.args[1]))
        b = bits(n.args[0])
        if not 0 <= k < w:
            return [b[-1] if op == "sar" else G.false()] * w
        if op == "shl":
            return [G.false()] * k + b[:w - k]
        return b[k:] + [b[-1] if op == "sar" else G.false()] * k
    if op == "add":
        acc = bits(n.args[0])
        for a in n.args[1:]:
            acc = acc and _add(acc, bits(a))
        return acc or _own(n)
    if op == "mul" and any(G.is_const(a) for a in n.args):
        c, x = n.args if G.is_const(n.args[0]) else n.args[::-1]
        acc, bx = [G.false()] * w, bits(x)
        for k, b in enumerate(_const_bits(c)):
            if b is G.true():
                acc = acc and _add(acc, [G.false()] * k + bx[:w - k])
        return acc or _own(n)
    if op == "lin":
        acc = _const_bits(G.const(n.args[1] % (1 << w) if dt.kind == "u" else n.args[1], dt))
        for c, x in n.args[0]:
            c %= 1 << w
            bx = bits(x)
            for k in range(w):
                if c >> k & 1:
                    acc = _add(acc, [G.false()] * k + bx[:w - k])
                    if acc is None:
                        return _own(n)
        return acc
    return _own(n)


def same_bits(a, b):
    x, y = bits(a), bits(b)
    return len(x) == len(y) and all(p is q for p, q in zip(x, y))


def show(bs):
    out = []
    for b in bs:
        out.append("0" if b is G.false() else "1" if b is G.true() else f"{G.show(b.args[0], 1)}.{b.args[1]}" if b.op == "bit" else G.show(b, 2))
    return "[" + ", ".join(out) + "]"
