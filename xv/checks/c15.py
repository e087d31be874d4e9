"""C15 bit packing: bit provenance of every packed bit and every unpacked value, for every width."""
import numpy as np
from ..trace import *
from ..common import *
from .. import bits as B
from xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack import to_uint8, from_uint8, packed_num_bytes

RT = "unpacking a packed array restores exactly the bits of each value and of no other"
SZ = "packing uses exactly the advertised number of bytes"
DT = "unpacking gives booleans for one bit, bytes up to eight bits, 32-bit words above"


def run(ck):
    ck.assume += ["array lengths and shapes are enumerated around every block boundary; widths are exhaustive (1..32); values are universally quantified",
                  "a value wider than the packed width contributes its low bits only (one bit: whether it is non-zero)"]
    for b in range(1, 33):
        per = int(np.lcm(b, 8)) // b
        lens = sorted({0, 1, 2, per - 1, per, per + 1, 2 * per + 1} - {-1})
        if ck.thorough:
            lens = sorted(set(lens) | set(range(0, 4 * per + 2)) | {37, 64})
        for n in lens:
            for dt in dtypes(b, n == per + 1 or ck.thorough):
                pack(ck, b, (n,), dt)
        for sh in ((), (2, 3), (3, 1, 5), (2, 0)):
            pack(ck, b, sh, dtypes(b, False)[0])
        for n in range(0, 70 if not ck.thorough else 300):
            try:
                got = packed_num_bytes(n, b)
            except Exception as e:
                got = e
            lo = -(-n * b // 8)
            ck.ob("the advertised size covers the bits without a spare block", f"{n} x {b} bits", isinstance(got, int) and lo <= got < lo + int(np.lcm(b, 8)) // 8 and (b not in (1, 2, 4, 8) or got == lo), got, where_of(packed_num_bytes))
    for b, n in [(7, 9400)] + ([(1, 65600), (31, 2120), (12, 5500), (3, 22000)] if ck.thorough else []):   # past every narrow counter
        pack(ck, b, (n,), dtypes(b, False)[0])
    for a in ((-1, 3), (4, 0), (4, 33), (4, -1), (2.5, 3), (3, 2.5)):
        try:
            r = packed_num_bytes(*a)
        except Exception as e:
            r = e
        ck.ob("ill-formed packing requests are rejected", f"packed_num_bytes{a}", isinstance(r, Exception), r, where_of(packed_num_bytes))
    for b in (0, 33, -1):
        rejects(ck, "ill-formed packing requests are rejected", f"to_uint8 {b} bits", lambda v: to_uint8(v, b), (sds((4,), np.uint8),), where_of(to_uint8))
        rejects(ck, "ill-formed packing requests are rejected", f"from_uint8 {b} bits", lambda v: from_uint8(v, (4,), b), (sds((4,), np.uint8),), where_of(from_uint8))
    for b in (2, 5, 12):
        rejects(ck, "ill-formed packing requests are rejected", f"to_uint8 floats {b} bits", lambda v: to_uint8(v, b), (sds((4,), np.float32),), where_of(to_uint8))


def dtypes(b, wide):
    d = [np.bool_] if b == 1 else []
    d += [np.uint8] if b <= 8 else [np.uint16] if b <= 16 else [np.uint32]
    if wide:
        d += [t for t in (np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32) if t not in d]
    return d


def out_dtype(b):
    return np.dtype(bool) if b == 1 else np.dtype(np.uint8) if b <= 8 else np.dtype(np.uint32)


def low(n, b, dt):
    """the low b bits of an input value in the unpacked dtype"""
    if b == 1:
        return n if n.dtype == G.BOOL else G.binop("ne", n, G.const(0, n.dtype))
    u = G.cvt(n, np.dtype(np.uint32))
    return G.cvt(G.binop("and", u, G.const((1 << b) - 1, np.uint32)), dt)


def pack(ck, b, shape, dt):
    n = int(np.prod(shape))
    inst = f"{np.dtype(dt)}{list(shape)} in {b} bits"
    adv = packed_num_bytes(n, b)
    R = go(ck, RT, inst + " to_uint8", lambda v: to_uint8(v, b), (sds(shape, dt),), ["v"])
    if R is None:
        return
    s = R.oshape
    ck.ob(SZ, inst, (tuple(s.shape), s.dtype) == ((adv,), np.uint8), f"{s} instead of {adv} bytes", where_of(to_uint8))
    R = go(ck, RT, inst, lambda v: from_uint8(to_uint8(v, b), shape, b), (sds(shape, dt),), ["v"])
    if R is None:
        return
    od = out_dtype(b)
    ck.ob(DT, inst, R.oshape.dtype == od, R.oshape.dtype, where_of(from_uint8))
    if R.oshape.dtype != od:
        return
    src = R.ins["v"]
    exp = np.empty(src.shape, dtype=object)
    for i in np.ndindex(*src.shape):
        exp[i] = low(src[i], b, od)
    ck.eqbits(RT, inst, R.flat[0], exp, where_of(from_uint8))
