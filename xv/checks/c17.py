"""C17 aggregate packing: where every bit of every field travels, into the packed form and back."""
import numpy as np
from ..trace import *
from ..common import *
from .. import bits as B
from ..interp import Interp
from ..hashkinds import env
from xtructure import xtructure_dataclass, FieldDescriptor as F

RT = "unpacking restores every bit of every field, with its shape and dtype"
OWN = "every declared bit of every field occupies one position of its own"
SZ = "word and tail storage are exactly as long as the declared bits need"
BAD = "structures that cannot be packed losslessly are rejected"


def cls(name, fields, **kw):
    return xtructure_dataclass(type(name, (), {"__annotations__": dict(fields), "__module__": __name__}), **kw)


class Decl:
    """a packed structure type together with an independent list of its leaves [(path, bits, shape, dtype)]"""
    def __init__(self, label, fields, aggregate=True):
        self.label, self.leaves = label, []
        self.fields = fields
        self.K = self._build(fields, "", "Top", dict(aggregate_bitpack=True) if aggregate else {})
        self._cache = {}

    def _build(self, fields, prefix, name, kw):
        ann = {}
        for n, f in fields:
            if isinstance(f, list):
                ann[n] = F.scalar(dtype=self._build(f, prefix + n + ".", f"N_{n}", {}))
            else:
                b, sh, dt = f
                self.leaves.append((prefix + n, b, tuple(sh), np.dtype(dt)))
                ann[n] = F.scalar(dtype=jnp.dtype(dt), bits=b) if sh == () else F.tensor(dtype=jnp.dtype(dt), shape=sh, bits=b)
        c = cls(name, ann, **kw)
        self.sub = getattr(self, "sub", {})
        self.sub[prefix] = (c, fields)
        return c

    def inst(self, batch, prefix=""):
        c, fields = self.sub[prefix]
        return c(**{n: self.inst(batch, prefix + n + ".") if isinstance(f, list) else sds(tuple(batch) + tuple(f[1]), f[2]) for n, f in fields})

    @property
    def total(self):
        return sum(b * int(np.prod(sh)) for _, b, sh, _ in self.leaves)


def storage(total):
    """(words, tail bytes): whole words, and a tail of one or two bytes instead of a last word that would be mostly empty"""
    full, rem = divmod(total, 32)
    need = -(-rem // 8)
    return (full + 1, 0) if need >= 3 else (full, need)


def decls(ck):
    u8, u16, u32, i8, i32, bo = np.uint8, np.uint16, np.uint32, np.int8, np.int32, np.bool_
    yield "one bit", [("a", (1, (), bo))]
    for b in range(1, 33):
        dt = bo if b == 1 else u8 if b <= 8 else u16 if b <= 16 else u32
        yield f"{b} bits then a flag", [("a", (b, (5,), dt)), ("z", (1, (3,), bo))]
        if b > 1:
            yield f"flag then {b} bits", [("z", (1, (), bo)), ("a", (b, (4,), dt))]
    yield "documented example", [("flags", (1, (17,), bo)), ("faces", (3, (6, 9), u8)), ("codes", (12, (5,), u16))]
    yield "nested", [("inner", [("a", (4, (6,), u8)), ("codes", (12, (5,), u16))]), ("flags", (1, (7,), bo))]
    yield "deeply nested", [("k", (5, (), u8)), ("n", [("x", (1, (2,), bo)), ("m", [("y", (20, (2,), u32)), ("x", (7, (3,), u8))]), ("w", (9, (), u16))]), ("x", (3, (2, 2), u8))]
    yield "two nested of one shape", [("l", [("v", (6, (3,), u8))]), ("r", [("v", (6, (3,), u8))]), ("s", (2, (), u8))]
    yield "signed full width", [("a", (8, (3,), i8)), ("b", (32, (2,), i32)), ("c", (16, (), np.int16)), ("d", (1, (), bo))]
    yield "wider than dtype", [("a", (12, (3,), u8)), ("b", (3, (2,), bo)), ("c", (20, (2,), u16))]
    yield "flags kept in integers", [("a", (1, (5,), u8)), ("b", (1, (), i32)), ("c", (31, (2,), i32))]
    yield "empty field", [("a", (3, (0,), u8)), ("b", (5, (2,), u8))]
    yield "only an empty field", [("a", (3, (0,), u8))]
    yield "no tail", [("a", (32, (2,), u32))]
    yield "one byte tail", [("a", (32, (), u32)), ("b", (8, (), u8))]
    yield "two byte tail", [("a", (32, (), u32)), ("b", (9, (), u16))]
    yield "three byte remainder", [("a", (32, (), u32)), ("b", (17, (), u32))]
    yield "tail only", [("a", (5, (3,), u8))]
    yield "long fields", [("a", (7, (40,), u8)), ("z", (1, (9,), bo)), ("b", (5, (61,), u8)), ("y", (1, (40,), bo)), ("c", (13, (30,), u16)), ("d", (3, (2,), u8))]
    yield "flags before wide values", [("z", (1, (9,), bo)), ("a", (8, (3,), u8)), ("y", (1, (13,), bo)), ("b", (2, (7,), u8)), ("c", (19, (2,), u32)), ("x", (1, (18,), bo)), ("d", (11, (2,), u16))]
    yield "many fields", [(f"f{k}", (1 + k % 11, (), bo if k % 11 == 0 else u8 if k % 11 < 8 else u16)) for k in range(40)]
    if ck.thorough:
        rg = np.random.RandomState(7)
        for k in range(60):
            fs = []
            for q in range(rg.randint(1, 6)):
                b = int(rg.randint(1, 33))
                sh = [(), (1,), (3,), (2, 2), (5,)][rg.randint(5)]
                fs.append((f"f{q}", (b, sh, bo if b == 1 else u8 if b <= 8 else u16 if b <= 16 else u32)))
            yield f"mixed {k}", fs


def expected(src, b, dt):
    """the field value after a round trip: its low b bits (all of them for a value within the declared width)"""
    dt = np.dtype(dt)
    o = np.empty(src.shape, dtype=object)
    for i in np.ndindex(*src.shape):
        x = src[i]
        if x.dtype != G.BOOL:
            y = G.cvt(x, np.dtype(np.uint32))
            x = G.binop("and", y, G.const((1 << b) - 1, y.dtype)) if b < 32 else y
        o[i] = G.cvt(x, dt)
    return o


def default_dtype(b):
    return np.dtype(bool) if b == 1 else np.dtype(np.uint8) if b <= 8 else np.dtype(np.uint32)


def stream(words, tail, batch):
    """bit list per batch element of the packed form"""
    out = {}
    for i in np.ndindex(*batch):
        s = []
        for w in words[i]:
            s += B.bits(w)
        for w in tail[i]:
            s += B.bits(w)
        out[i] = s
    return out


def src_bit(x, k):
    """k-th bit of an input element"""
    return B.bits(x)[k] if k < len(B.bits(x)) else G.false()


BATCHES = [(), (3,), (2, 2), (0,)]


def run(ck):
    G.LIFT_CAP[0] = 16
    ck.assume += ["structure declarations are enumerated (every width 1..32, nested, mixed); field contents are universally quantified over the declared width",
                  "the bit layout is judged on the packed instance produced by `.packed`; a position outside the declared bits must be constant zero"]
    for lab, fs in decls(ck):
        D = guard(ck, RT, lab, lambda: Decl(lab, fs))
        if D is None:
            continue
        wide = lab in ("documented example", "deeply nested", "only an empty field", "tail only")
        for batch in (BATCHES + [(1,), (2, 1, 3)] if wide or ck.thorough else BATCHES[:2]):
            one(ck, D, batch)
        kernel(ck, D)
    auto(ck)
    bad(ck)


KERNELS = [("pallas", None, None), ("pallas", "1", "reverse"), ("pallas", "3", None), ("pallas", "7", "reverse"), ("off", None, None), ("xla", "2", None)]
EVERY = ("documented example", "nested", "deeply nested", "wider than dtype", "flags kept in integers", "empty field", "only an empty field", "tail only", "long fields", "flags before wide values", "many fields")


def kernel(ck, D):
    """the same obligations for the other packing back ends: the kernel with every tile size, program by program in either order"""
    sel = KERNELS if D.label in EVERY or ck.thorough else KERNELS[:1] if D.total % 2 else KERNELS[2:3]
    for be, tile, order in sel:
        for batch in ((2,), (), (0,)) if D.label in EVERY[:3] or ck.thorough else ((2,),):
            I = Interp()
            I.program_order = order
            with env(XTRUCTURE_AGG_BITPACK_PACK_BACKEND=be, XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE=tile):
                one(ck, D, batch, f" [{be}, tile {tile}, {order or 'ascending'} order]", I)


def one(ck, D, batch, tag="", interp=None):
    I = f"{D.label}{tag} batch {batch}"
    K, x = D.K, D.inst(batch)
    R = go(ck, RT, I, lambda x: (lambda p: dict(p=p, u=p.unpacked, o=p.as_original(), d=p.unpack(), e=p.unpack(dtype_policy="declared")))(x.packed), (x,), ["x"], interp=interp)
    if R is None:
        return
    w = where_of(type(R.out["p"]).as_original)
    W, T = storage(D.total)
    (wo, ws), (to, ts) = R.outs["p.words"], R.outs["p.tail"]
    if not ck.ob(SZ, I, (tuple(ws.shape), ws.dtype, tuple(ts.shape), ts.dtype) == (batch + (W,), np.dtype(np.uint32), batch + (T,), np.dtype(np.uint8)), f"words {ws}, tail {ts}; {D.total} bits", w):
        return
    wl, tl = _obj(wo, ws), _obj(to, ts)
    for i, s in stream(wl, tl, batch).items():
        ok, why = True, ""
        seen = {}
        for pos, b in enumerate(s):
            if b is not G.false():
                if b.id in seen or b.op == "const":
                    ok, why = False, f"positions {seen.get(b.id)} and {pos} of element {i} both hold {G.show(b)}"
                    break
                seen[b.id] = pos
        want = {}
        for n, bt, sh, dt in D.leaves:
            v = R.ins["x." + n][i] if batch else R.ins["x." + n]
            for j, e in enumerate(np.asarray(v, dtype=object).reshape(-1)):
                for k in range(bt):
                    q = src_bit(e, k)
                    if q is not G.false():
                        want[q.id] = (n, j, k)
        if ok:
            lost = [v for k, v in want.items() if k not in seen]
            extra = [seen[k] for k in seen if k not in want]
            if lost or extra:
                ok, why = False, f"element {i}: bits without a position {lost[:3]}, positions with foreign content {extra[:3]}"
        ck.ob(OWN, f"{I} element {i}", ok, why, w)
    for n, bt, sh, dt in D.leaves:
        src = R.ins["x." + n]
        for key, lab, d in (("u", "unpacked", default_dtype(bt)), ("d", "unpack()", default_dtype(bt)), ("o", "as_original", dt), ("e", "unpack(declared)", dt)):
            if f"{key}.{n}" not in R.outs:
                ck.ob(RT, f"{I} {lab} {n}", False, "the field is missing", w)
                continue
            o, s = R.outs[f"{key}.{n}"]
            if ck.ob(RT, f"{I} {lab} {n} type", (tuple(s.shape), s.dtype) == (batch + sh, d), s, w):
                ck.eqbits(RT, f"{I} {lab} {n}", o, expected(src, bt, d), w)
    ck.ob(RT, f"{I} class", type(R.out["o"]) is K and type(R.out["e"]) is K, type(R.out["o"]), w)


def _obj(o, s):
    from ..interp import lift_arr
    return lift_arr(o, s.dtype)


def auto(ck):
    """packing is available exactly when every leaf declares its bits"""
    yes = guard(ck, RT, "auto", lambda: Decl("auto", [("a", (3, (2,), np.uint8)), ("n", [("b", (1, (), np.bool_))])], aggregate=False))
    if yes is not None:
        ck.ob(RT, "automatic packing", hasattr(yes.K, "packed") and hasattr(yes.K, "Packed"), "no packed form", where_of(xtructure_dataclass))
        if hasattr(yes.K, "packed"):
            yes.label = "automatic packing"
            one(ck, yes, (2,))


def bad(ck):
    w = where_of(xtructure_dataclass)
    In = cls("In", dict(a=F.scalar(dtype=jnp.uint8, bits=3)))
    for lab, f in (("float leaf", lambda: cls("B", dict(a=F.scalar(dtype=jnp.float32, bits=32)), aggregate_bitpack=True)),
                   ("leaf without bits", lambda: cls("B", dict(a=F.scalar(dtype=jnp.uint8, bits=3), b=F.scalar(dtype=jnp.uint8)), aggregate_bitpack=True)),
                   ("nested array", lambda: cls("B", dict(a=F.tensor(dtype=In, shape=(2,))), aggregate_bitpack=True)),
                   ("aggregate and field", lambda: cls("B", dict(a=F.scalar(dtype=jnp.uint8, bits=3)), aggregate_bitpack=True, bitpack="field")),
                   ("aggregate and off", lambda: cls("B", dict(a=F.scalar(dtype=jnp.uint8, bits=3)), aggregate_bitpack=True, bitpack="off")),
                   ("unknown mode", lambda: cls("B", dict(a=F.scalar(dtype=jnp.uint8, bits=3)), bitpack="maybe"))):
        try:
            c = f()
            ck.ob(BAD, lab, False, f"{c} was built", w)
        except (TypeError, ValueError, NotImplementedError) as e:
            ck.ob(BAD, lab, True)
    for lab, ann in (("float leaf", dict(a=F.scalar(dtype=jnp.float32, bits=8))), ("nested array", dict(a=F.tensor(dtype=In, shape=(2,)))), ("leaf without bits", dict(a=F.scalar(dtype=jnp.uint8, bits=3), b=F.scalar(dtype=jnp.uint8)))):
        c = guard(ck, BAD, "auto " + lab, lambda: cls("B", ann))
        if c is not None:
            ck.ob(BAD, "auto " + lab, not hasattr(c, "packed"), "a lossy packed form is offered", w)
    D = Decl("b", [("a", (3, (2,), np.uint8)), ("b", (1, (), np.bool_))])
    odd = D.K(a=sds((3, 2), np.uint8), b=sds((2,), np.bool_))
    rejects(ck, BAD, "packing an unstructured instance", lambda x: x.packed, (odd,), w)
    P = D.K.Packed(words=sds((3, 0), np.uint32), tail=sds((2, 1), np.uint8))
    for lab, f in (("unpacked", lambda p: p.unpacked), ("as_original", lambda p: p.as_original()), ("unpack_field", lambda p: p.unpack_field("a"))):
        rejects(ck, BAD, f"{lab} of an unstructured packed instance", f, (P,), w)
    ok = D.inst((2,))
    rejects(ck, BAD, "unknown dtype policy", lambda x: x.packed.unpack(dtype_policy="x"), (ok,), w)
