"""C29 field descriptors: what a declaration exposes, what it rejects and what a derived descriptor changes, by enumerating declarations."""
import itertools, typing
import numpy as np
from ..trace import *
from .. import hashkinds as H
from ..common import *
import xtructure
from xtructure import xtructure_dataclass, FieldDescriptor as F, clone_field_descriptor, with_intrinsic_shape, broadcast_intrinsic_shape, descriptor_metadata
from xtructure.core import field_descriptors as fdm, field_descriptor_utils as fdu

EXPOSE = "a descriptor exposes exactly what it was declared with"
DEFAULT = "without a declared fill the fill is the sentinel of the dtype"
REJECT = "an inconsistent declaration is rejected when made"
ACCEPT = "a consistent declaration is accepted"
DERIVE = "a derived descriptor differs only in what was asked for"
SOURCE = "deriving leaves the source descriptor unchanged"
CLASS = "a class uses exactly the descriptors it declares, in declared order"
FILL = "a default instance holds the declared fill in the declared shape and dtype"
LEN = "a packed declaration stores the number of bytes its packing needs"
ATTR = ["dtype", "intrinsic_shape", "fill_value", "fill_value_factory", "validator", "bits", "packed_bits", "unpacked_dtype", "unpacked_intrinsic_shape"]
DT = [jnp.bool_, jnp.uint8, jnp.uint16, jnp.uint32, jnp.int8, jnp.int16, jnp.int32, jnp.float16, jnp.bfloat16, jnp.float32, np.dtype("uint8"), np.dtype("float32")]


def fac(shape, dtype):
    return jnp.full(shape, 1, dtype)


def fac2(shape, dtype):
    return jnp.zeros(shape, dtype)


def val(x):
    return None


def val2(x):
    return None


@xtructure_dataclass
class In29:
    a: F.scalar(dtype=jnp.uint8)


class Same:
    """value with identity, to see that it is handed on and not rebuilt"""


def run(ck):
    ck.assume += ["declarations are enumerated over representative dtypes, shapes, fills and widths; the width, dtype and shape of a packed field declared by hand are not compared with its storage"]
    ck.fan([("expose", {}), ("reject", {}), ("derive", {}), ("derive-packed", {}), ("class", {})])


def part(ck, label):
    {"expose": expose, "reject": reject, "derive": derive, "derive-packed": lambda c: derive(c, True), "class": classes}[label](ck)


def wf():
    return where_of(F.__init__)


def eqv(a, b):
    return a is b or (type(a) is type(b) and a == b)


def attrs(ck, rule, inst, f, where=None, **exp):
    """make the declaration and compare every attribute"""
    w = where or wf()
    try:
        d = f()
    except Exception as e:
        fr = repo_frame(e)
        ck.ob(rule, inst, False, f"{type(e).__name__}: {e}", fr if fr[0] != "?" else w)
        return None
    full = {a: None for a in ATTR}
    full["intrinsic_shape"] = ()
    full.update(exp)
    if type(d) is not F:
        ck.ob(rule, inst, False, f"a {type(d).__name__}", w)
        return None
    for a in ATTR:
        if a == "fill_value" and full[a] is Same:
            continue
        ck.ob(rule, f"{inst}: {a}", eqv(getattr(d, a), full[a]), f"{getattr(d, a)!r} instead of {full[a]!r}", w)
    m = descriptor_metadata(d)
    ck.ob(EXPOSE, f"{inst}: metadata", set(m) >= set(ATTR) and all(m[a] is getattr(d, a) for a in ATTR), m, where_of(descriptor_metadata))
    return d


def expose(ck):
    shapes = [(), (1,), (2,), (2, 3), (0,), (5, 1, 2)]
    for dt in DT:
        for sh in shapes:
            for bits, fill, factory, v in ((None, None, None, None), (None, 1, None, None), (3, 0, None, val), (1, None, fac, None), (32, None, None, val2), (None, False, None, None), (8, 0.0, None, None)):
                kw = {k: x for k, x in dict(bits=bits, fill_value_factory=factory, validator=v).items() if x is not None}
                exp = dict(dtype=dt, intrinsic_shape=sh, bits=bits, fill_value_factory=factory, validator=v, fill_value=fill if fill is not None else None if factory else Same)
                lab = f"{dt} {sh} bits={bits} fill={fill!r} factory={factory is not None} validator={v is not None}"
                fkw = {} if fill is None else dict(fill_value=fill)
                ds = [attrs(ck, EXPOSE, "tensor " + lab, lambda: F.tensor(dtype=dt, shape=sh, **fkw, **kw), **exp),
                      attrs(ck, EXPOSE, "constructor " + lab, lambda: F(dt, sh, fill, **kw), **exp),
                      attrs(ck, EXPOSE, "constructor by name " + lab, lambda: F(dtype=dt, intrinsic_shape=sh, **fkw, **kw), **exp)]
                if sh == ():
                    ds.append(attrs(ck, EXPOSE, "scalar " + lab, lambda: F.scalar(dtype=dt, **({} if fill is None else dict(default=fill)), **kw), **exp))
                if not kw:
                    if fill is None:
                        ds.append(attrs(ck, EXPOSE, "F[dtype, shape] " + lab, lambda: F[dt, sh], **exp))
                        if sh == ():
                            ds.append(attrs(ck, EXPOSE, "F[dtype] " + lab, lambda: F[dt], **exp))
                            ds.append(attrs(ck, EXPOSE, "F[(dtype,)] " + lab, lambda: F[(dt,)], **exp))
                    else:
                        ds.append(attrs(ck, EXPOSE, "F[dtype, shape, fill] " + lab, lambda: F[dt, sh, fill], **exp))
                        if sh == ():
                            ds.append(attrs(ck, EXPOSE, "F[dtype, fill] " + lab, lambda: F[dt, fill], **exp))
                for d in ds:
                    if d is not None and exp["fill_value"] is Same:
                        sentinel(ck, lab, dt, d.fill_value)
    for dt in (In29,):
        for sh in ((), (2,)):
            attrs(ck, EXPOSE, f"nested {sh}", lambda: F.tensor(dtype=dt, shape=sh), dtype=dt, intrinsic_shape=sh)
            attrs(ck, EXPOSE, f"nested scalar", lambda: F.scalar(dtype=dt), dtype=dt)
    # packed storage declared by hand
    for k, dt, us in ((1, jnp.bool_, (8,)), (3, jnp.uint8, (5,)), (12, jnp.uint32, (2, 2)), (32, jnp.uint32, ())):
        for lab, f in (("tensor", lambda: F.tensor(dtype=jnp.uint8, shape=(6,), packed_bits=k, unpacked_dtype=dt, unpacked_shape=us, fill_value=0)), ("constructor", lambda: F(jnp.uint8, (6,), 0, packed_bits=k, unpacked_dtype=dt, unpacked_intrinsic_shape=us))):
            attrs(ck, EXPOSE, f"{lab} packed_bits={k}", f, dtype=jnp.uint8, intrinsic_shape=(6,), fill_value=0, packed_bits=k, unpacked_dtype=dt, unpacked_intrinsic_shape=us)
        attrs(ck, EXPOSE, f"scalar packed_bits={k}", lambda: F.scalar(dtype=jnp.uint8, default=0, packed_bits=k, unpacked_dtype=dt, unpacked_shape=us), dtype=jnp.uint8, fill_value=0, packed_bits=k, unpacked_dtype=dt, unpacked_intrinsic_shape=us)
    # packed_tensor
    wp = where_of(F.packed_tensor)
    for k in range(1, 33):
        for us in [(), (1,), (2,), (3,), (5,), (7,), (8,), (9,), (16,), (2, 3), (0,), (33,), (3, 0)]:
            n = int(np.prod(us, dtype=np.int64))
            dt = jnp.bool_ if k == 1 else jnp.uint8 if k <= 8 else jnp.uint32
            bits = n * k
            unit = int(np.lcm(k, 8))
            need = -(-bits // unit) * unit // 8
            lab = f"packed_tensor {k} bits {us}"
            for how, f, e in (("", lambda: F.packed_tensor(packed_bits=k, shape=us), {}), (" unpacked_shape", lambda: F.packed_tensor(packed_bits=k, unpacked_shape=us), {}), (" both", lambda: F.packed_tensor(packed_bits=k, shape=us, unpacked_shape=us), {}),
                              (" list", lambda: F.packed_tensor(packed_bits=k, shape=list(us)), {}),
                              (" dtype", lambda: F.packed_tensor(packed_bits=k, shape=us, unpacked_dtype=jnp.int32, fill_value=7, validator=val), dict(unpacked_dtype=jnp.int32, fill_value=7, validator=val)),
                              (" factory", lambda: F.packed_tensor(packed_bits=k, shape=us, fill_value=None, fill_value_factory=fac), dict(fill_value=None, fill_value_factory=fac))):
                d = attrs(ck, EXPOSE, lab + how, f, wp, **{**dict(dtype=jnp.uint8, intrinsic_shape=(need,) if False else getattr(safe(f), "intrinsic_shape", None), fill_value=0, packed_bits=k, unpacked_dtype=dt, unpacked_intrinsic_shape=us), **e})
                if d is not None:
                    # enough bytes for every value, whole blocks of values, and what the class accessors expect
                    ok = isinstance(d.intrinsic_shape, tuple) and len(d.intrinsic_shape) == 1 and d.intrinsic_shape[0] * 8 >= bits and (d.intrinsic_shape[0] > 0) == (n > 0) and d.intrinsic_shape[0] <= need
                    ck.ob(LEN, lab + how, ok, f"{d.intrinsic_shape} bytes for {bits} bits", wp)
            if k in (1, 2, 3, 8, 12, 32) and us in ((5,), (2, 3), (9,)):
                K = xtructure_dataclass(type("Pk29", (), {"__annotations__": {"p": F.packed_tensor(packed_bits=k, shape=us)}, "__module__": __name__}))
                R = go(ck, LEN, lab + " class", lambda v: (K.from_unpacked(p=v), K.from_unpacked(p=v).p_unpacked), (sds(us, dt),), ["v"])
                if R is not None:
                    ck.ob(LEN, lab + " accessors", tuple(R.outs["1"][1].shape) == us and R.outs["1"][1].dtype == jnp.dtype(dt), "", wp)


def safe(f):
    try:
        return f()
    except Exception:
        return None


def sentinel(ck, lab, dt, v):
    d = jnp.dtype(dt)
    w = where_of(fdm._default_fill_value_for_dtype) if hasattr(fdm, "_default_fill_value_for_dtype") else wf()
    if d == bool:
        ok = v is False or (isinstance(v, np.bool_) and not v)
    elif jnp.issubdtype(d, jnp.unsignedinteger):
        ok = v == jnp.iinfo(d).max
    elif jnp.issubdtype(d, jnp.integer):
        ok = jnp.iinfo(d).min <= v <= jnp.iinfo(d).max
    else:
        ok = v == jnp.inf
    ck.ob(DEFAULT, lab, ok, f"{v!r}", w)


def bad(ck, inst, f, where=None):
    try:
        f()
    except Exception:
        return ck.ob(REJECT, inst, True)
    return ck.ob(REJECT, inst, False, "accepted", where or wf())


def fine(ck, inst, f, where=None):
    try:
        f()
    except Exception as e:
        return ck.ob(ACCEPT, inst, False, f"{type(e).__name__}: {e}", where or wf())
    return ck.ob(ACCEPT, inst, True)


def reject(ck):
    for lab, mk in (("tensor", lambda **k: F.tensor(dtype=jnp.uint8, shape=(2,), **k)), ("scalar", lambda **k: F.scalar(dtype=jnp.uint8, **{("default" if q == "fill_value" else q): x for q, x in k.items()})), ("constructor", lambda **k: F(jnp.uint8, (2,), **k))):
        for fv in (0, 1, False, 0.0):
            bad(ck, f"{lab} two fills {fv!r}", lambda: mk(fill_value=fv, fill_value_factory=fac))
        for b in (0, -1, 33, 64, 1000):
            bad(ck, f"{lab} bits={b}", lambda: mk(bits=b))
            bad(ck, f"{lab} packed_bits={b}", lambda: mk(packed_bits=b))
        for b in (1.0, "3", 2.5, (3,), [3]):
            bad(ck, f"{lab} bits={b!r}", lambda: mk(bits=b))
            bad(ck, f"{lab} packed_bits={b!r}", lambda: mk(packed_bits=b))
        for b in range(1, 33):
            fine(ck, f"{lab} bits={b}", lambda: mk(bits=b, fill_value=0))
            fine(ck, f"{lab} packed_bits={b}", lambda: mk(packed_bits=b, fill_value=0))
    wp = where_of(F.packed_tensor)
    bad(ck, "packed_tensor without shape", lambda: F.packed_tensor(packed_bits=3), wp)
    bad(ck, "packed_tensor without width", lambda: F.packed_tensor(shape=(3,)), wp)
    for a, b in (((3,), (4,)), ((2, 3), (3, 2)), ((6,), (2, 3)), ((), (1,))):
        bad(ck, f"packed_tensor {a} and {b}", lambda: F.packed_tensor(packed_bits=3, shape=a, unpacked_shape=b), wp)
    for b in (0, -1, 33):
        bad(ck, f"packed_tensor packed_bits={b}", lambda: F.packed_tensor(packed_bits=b, shape=(4,)), wp)
    for fv in (0, 5):
        bad(ck, "packed_tensor two fills", lambda: F.packed_tensor(packed_bits=3, shape=(4,), fill_value=fv, fill_value_factory=fac), wp)
    bad(ck, "F[] with four items", lambda: F[jnp.uint8, (2,), 0, 1], where_of(F.__class_getitem__))
    bad(ck, "F[] with no items", lambda: F[()], where_of(F.__class_getitem__))
    wc = where_of(clone_field_descriptor)
    for src in (F.scalar(dtype=jnp.uint8), F.scalar(dtype=jnp.uint8, default=3), F.scalar(dtype=jnp.uint8, fill_value_factory=fac)):
        for fv in (0, 1, False):
            bad(ck, f"clone with two fills {fv!r}", lambda: clone_field_descriptor(src, fill_value=fv, fill_value_factory=fac), wc)
    # classes
    wx = where_of(fdm.extract_field_descriptors_from_annotations)
    dc = lambda ann: xtructure_dataclass(type("Bad29", (), {"__annotations__": ann, "__module__": __name__}))
    for lab, ann in (("plain type", {"a": int}), ("dtype", {"a": jnp.uint8}), ("one of two", {"a": F.scalar(dtype=jnp.uint8), "b": float}), ("first of two", {"a": float, "b": F.scalar(dtype=jnp.uint8)}), ("annotated without descriptor", {"a": typing.Annotated[int, "text"]}), ("text", {"a": "F"})):
        bad(ck, f"class field {lab}", lambda: dc(ann), wx)
    for lab, ann in (("plain", {"a": F.scalar(dtype=jnp.uint8)}), ("annotated", {"a": typing.Annotated[int, F.scalar(dtype=jnp.uint8)]}), ("annotated after text", {"a": typing.Annotated[int, "text", F.scalar(dtype=jnp.uint8)]})):
        fine(ck, f"class field {lab}", lambda: dc(ann), wx)
    for lab, kw, ann in (("bitpack mode", dict(bitpack="nope"), {"a": F.scalar(dtype=jnp.uint8)}), ("aggregate and field", dict(aggregate_bitpack=True, bitpack="field"), {"a": F.scalar(dtype=jnp.uint8, bits=3)}), ("aggregate and off", dict(aggregate_bitpack=True, bitpack="off"), {"a": F.scalar(dtype=jnp.uint8, bits=3)}),
                         ("aggregate without widths", dict(aggregate_bitpack=True), {"a": F.scalar(dtype=jnp.uint8)}), ("aggregate of floats", dict(aggregate_bitpack=True), {"a": F.scalar(dtype=jnp.float32, bits=3)}), ("aggregate with one width missing", dict(bitpack="aggregate"), {"a": F.scalar(dtype=jnp.uint8, bits=3), "b": F.scalar(dtype=jnp.uint8)}),
                         ("aggregate with nested array", dict(aggregate_bitpack=True), {"a": F.tensor(dtype=xtructure_dataclass(type("N29", (), {"__annotations__": {"q": F.scalar(dtype=jnp.uint8, bits=2, default=0)}, "__module__": __name__})), shape=(2,))})):
        bad(ck, f"class {lab}", lambda: xtructure_dataclass(**kw)(type("Bad29", (), {"__annotations__": ann, "__module__": __name__})), where_of(xtructure_dataclass))


def derive(ck, packed=False):
    mk = {"plain": lambda: F.tensor(dtype=jnp.float32, shape=(2, 3)), "filled": lambda: F.tensor(dtype=jnp.uint16, shape=(2,), fill_value=5, bits=7, validator=val),
          "factory": lambda: F.scalar(dtype=jnp.int32, fill_value_factory=fac, bits=32), "scalar": lambda: F.scalar(dtype=jnp.bool_, default=True), "nested": lambda: F.tensor(dtype=In29, shape=(4,), validator=val),
          "zero": lambda: F.tensor(dtype=jnp.uint32, shape=(0,), fill_value=0)} if not packed else {
          "packed": lambda: F.packed_tensor(packed_bits=3, shape=(5,), validator=val), "packed wide": lambda: F.packed_tensor(packed_bits=12, shape=(2, 2), unpacked_dtype=jnp.int32, fill_value=9),
          "packed by hand": lambda: F(jnp.uint8, (6,), 0, packed_bits=4, unpacked_dtype=jnp.uint8, unpacked_intrinsic_shape=(12,)), "packed factory": lambda: F.packed_tensor(packed_bits=1, shape=(9,), fill_value=None, fill_value_factory=fac)}
    wc, wi, wb = where_of(clone_field_descriptor), where_of(with_intrinsic_shape), where_of(broadcast_intrinsic_shape)
    opts = {"dtype": [jnp.int16, jnp.float32, np.dtype("uint8")], "intrinsic_shape": [(), (7,), [2, 2], (1, 0)], "fill": [("fill_value", 3), ("fill_value", 0), ("fill_value", False), ("fill_value_factory", fac2)], "validator": [val2, None]}
    for name, make in mk.items():
        for use in itertools.product(*[[None] + [(k, v) for v in vs] for k, vs in opts.items()]):
            kw, exp = {}, {}
            for u in use:
                if u is None:
                    continue
                k, v = u
                if k == "fill":
                    kw[v[0]] = v[1]
                    exp["fill_value"], exp["fill_value_factory"] = (v[1], None) if v[0] == "fill_value" else (None, v[1])
                else:
                    kw[k] = v
                    exp[k] = tuple(v) if k == "intrinsic_shape" else v
            src = make()
            before = {a: getattr(src, a) for a in ATTR}
            full = {**before, **exp}
            if full["fill_value"] is None and full["fill_value_factory"] is None:
                full["fill_value"] = Same if full["dtype"] is not In29 else None
            attrs(ck, DERIVE, f"{name} clone {kw}", lambda: clone_field_descriptor(src, **kw), wc, **full)
            ck.ob(SOURCE, f"{name} clone {kw}", all(getattr(src, a) is before[a] for a in ATTR), "", wc)
        src = make()
        before = {a: getattr(src, a) for a in ATTR}
        for sh in ((), (1,), (4, 2), [3], (0,)):
            attrs(ck, DERIVE, f"{name} with_intrinsic_shape {sh}", lambda: with_intrinsic_shape(src, sh), wi, **{**before, "intrinsic_shape": tuple(sh)})
            attrs(ck, DERIVE, f"{name} broadcast_intrinsic_shape {sh}", lambda: broadcast_intrinsic_shape(src, sh), wb, **{**before, "intrinsic_shape": tuple(sh) + before["intrinsic_shape"]})
            attrs(ck, DERIVE, f"{name} broadcast_intrinsic_shape twice {sh}", lambda: broadcast_intrinsic_shape(broadcast_intrinsic_shape(src, (2,)), sh), wb, **{**before, "intrinsic_shape": tuple(sh) + (2,) + before["intrinsic_shape"]})
        attrs(ck, DERIVE, f"{name} broadcast_intrinsic_shape generator", lambda: broadcast_intrinsic_shape(src, (q for q in (3, 2))), wb, **{**before, "intrinsic_shape": (3, 2) + before["intrinsic_shape"]})
        ck.ob(SOURCE, name, all(getattr(src, a) is before[a] for a in ATTR), "", wb)
        d = safe(lambda: clone_field_descriptor(src))
        ck.ob(SOURCE, name + " new object", d is not None and d is not src, "", wc)
    ck.ob(EXPOSE, "helpers are exported", all(getattr(xtructure, n, None) is getattr(fdu, n) for n in ("clone_field_descriptor", "with_intrinsic_shape", "broadcast_intrinsic_shape", "descriptor_metadata")), "", wc)


def classes(ck):
    wx = where_of(fdm.get_field_descriptors)
    for perm in itertools.permutations("cab"):
        for style in ("legacy", "annotated"):
            ds = {n: F.tensor(dtype=jnp.uint16, shape=(i + 1,), fill_value=i) for i, n in enumerate(perm)}
            ann = {n: d if style == "legacy" else typing.Annotated[object, "note", d] for n, d in ds.items()}
            K = xtructure_dataclass(type("Cls29", (), {"__annotations__": ann, "__module__": __name__}))
            got = fdm.get_field_descriptors(K)
            ck.ob(CLASS, f"{perm} {style}", list(got) == list(perm) and all(got[n] is ds[n] for n in perm), got, wx)
            ck.ob(CLASS, f"{perm} {style} shapes", K.default_shape._asdict() == {n: d.intrinsic_shape for n, d in ds.items()} and list(K.default_shape._fields) == list(perm), K.default_shape, wx)
            ck.ob(CLASS, f"{perm} {style} dtypes", K.default_dtype._asdict() == {n: d.dtype for n, d in ds.items()}, K.default_dtype, wx)
    # two classes never share their tables, also when one is derived from the other's descriptors
    base = F.tensor(dtype=jnp.uint16, shape=(2,), fill_value=3, validator=val)
    A = xtructure_dataclass(type("ClsA", (), {"__annotations__": {"x": base}, "__module__": __name__}))
    B = xtructure_dataclass(type("ClsB", (), {"__annotations__": {"x": broadcast_intrinsic_shape(base, (4,)), "y": clone_field_descriptor(base, dtype=jnp.float32)}, "__module__": __name__}))
    ck.ob(CLASS, "derived class", list(fdm.get_field_descriptors(A)) == ["x"] and fdm.get_field_descriptors(A)["x"] is base and list(fdm.get_field_descriptors(B)) == ["x", "y"], "", wx)
    for K, exp in ((A, {"x": ("uint16", (2,), 3)}), (B, {"x": ("uint16", (4, 2), 3), "y": ("float32", (2,), 3)})):
        defaults(ck, K, exp)
    # a structure that extends another one has the fields of both, a redeclared field in its original place
    mk = lambda nm, bases, ann: xtructure_dataclass(type(nm, bases, {"__annotations__": ann, "__module__": __name__}))
    for lab, own, exp in (("new field", {"y": F.scalar(dtype=jnp.float32, default=5)}, {"x": ("uint16", (2,), 3), "y": ("float32", (), 5)}),
                          ("redeclared field", {"y": F.scalar(dtype=jnp.float32, default=5), "x": F.tensor(dtype=jnp.int32, shape=(4,), fill_value=1)}, {"x": ("int32", (4,), 1), "y": ("float32", (), 5)}),
                          ("nothing new", {}, {"x": ("uint16", (2,), 3)})):
        C = mk("ClsC", (A,), own)
        E = mk("ClsE", (C,), {"z": F.scalar(dtype=jnp.int8, default=4)})
        for K, e in ((C, exp), (E, {**exp, "z": ("int8", (), 4)}), (A, {"x": ("uint16", (2,), 3)})):
            L = f"extension, {lab}: {K.__name__}"
            got = fdm.get_field_descriptors(K)
            ck.ob(CLASS, L, list(got) == list(e) and all((jnp.dtype(got[n].dtype), tuple(got[n].intrinsic_shape), got[n].fill_value) == (jnp.dtype(d), sh, v) for n, (d, sh, v) in e.items()), got, wx)
            ck.ob(CLASS, L + " fields", list(K.__dataclass_fields__) == list(got), list(K.__dataclass_fields__), wx)
            defaults(ck, K, e, L)
    for dt in DT:
        d = jnp.dtype(dt)
        for sh in ((), (3,), (2, 2)):
            fv = True if d == bool else 2
            for lab, fd, v in ((f"{d} {sh} filled", F.tensor(dtype=dt, shape=sh, fill_value=fv), fv), (f"{d} {sh} zero", F.tensor(dtype=dt, shape=sh, fill_value=0), 0), (f"{d} {sh} factory", F.tensor(dtype=dt, shape=sh, fill_value_factory=fac), 1),
                               (f"{d} {sh} cloned fill", clone_field_descriptor(F.tensor(dtype=dt, shape=sh), fill_value=1), 1), (f"{d} {sh} cloned dtype", clone_field_descriptor(F.tensor(dtype=jnp.uint8, shape=sh, fill_value=1), dtype=dt), 1),
                               (f"{d} {sh} cloned factory", clone_field_descriptor(F.tensor(dtype=dt, shape=sh, fill_value=1), fill_value_factory=fac2), 0)):
                K = xtructure_dataclass(type("Fill29", (), {"__annotations__": {"x": fd}, "__module__": __name__}))
                defaults(ck, K, {"x": (d, sh, v)}, lab)


def defaults(ck, K, exp, lab=None):
    for b in ((), (2,), (2, 3)):
        R = go(ck, FILL, f"{lab or K.__name__} default{b}", lambda: K.default(b), [], [])
        if R is None:
            continue
        for n, (dt, sh, v) in exp.items():
            o, s = R.outs[n]
            ck.ob(FILL, f"{lab or K.__name__} default{b}.{n}", s.dtype == jnp.dtype(dt) and tuple(s.shape) == b + sh, f"{s.dtype}{s.shape}", where_of(K.default))
            ck.eq(FILL, f"{lab or K.__name__} default{b}.{n} value", o, np.full(b + sh, v).astype(jnp.dtype(dt)), where_of(K.default))
