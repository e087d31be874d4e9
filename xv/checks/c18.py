"""C18 lazy reading of one packed field and the published bit schema."""
import numpy as np
from ..trace import *
from ..common import *
from .. import bits as B
from .c17 import Decl, decls, expected, default_dtype, stream, storage, src_bit, _obj

EQ = "reading one field gives what unpacking the whole structure gives for it"
SCH = "the schema states each field's real position, width, count, shape and dtype"
BAD = "unknown fields and policies are rejected"


def selections(n):
    """(label, selector, flattened indices it denotes)"""
    out = [("none", None, None)]
    for s in (slice(None), slice(1, None), slice(None, 2), slice(0, n), slice(None, None, 2), slice(1, None, 2), slice(-2, None), slice(None, -1), slice(0, n + 3), slice(None, None, -1), slice(n, None)):
        out.append((f"{s}", s, list(range(n))[s]))
    if n:
        for ix in ([0], [n - 1], [n - 1, 0, n // 2], [0, 0]):
            out += [(f"list {ix}", ix, ix), (f"tuple {ix}", tuple(ix), ix), (f"array {ix}", np.array(ix), ix), (f"device array {ix}", "jnp", ix)]
        out += [("int", n - 1, [n - 1]), ("numpy int", np.int64(0), [0])]
    return out


def run(ck):
    G.LIFT_CAP[0] = 16
    ck.assume += ["structure declarations and index selections are enumerated; packed contents are universally quantified",
                  "explicit indices lie in 0..nvalues-1 as documented; slices have Python meaning"]
    for lab, fs in decls(ck):
        if lab == "many fields" and not ck.thorough:
            continue
        D = guard(ck, EQ, lab, lambda: Decl(lab, fs))
        if D is None:
            continue
        deep = lab in ("documented example", "deeply nested", "nested", "flags kept in integers", "wider than dtype", "two nested of one shape", "signed full width", "empty field") or ck.thorough
        schema(ck, D)
        for batch in ((), (3,), (2, 2)) if deep else ((), (2,)) if lab in ("long fields", "flags before wide values") else ((2,),):
            fields(ck, D, batch, deep)
    bad(ck)


def fields(ck, D, batch, deep):
    x = D.inst(batch)
    w = where_of(D.K.Packed.unpack_field)
    for n, b, sh, dt in D.leaves:
        nv = int(np.prod(sh))
        sels = selections(nv) if deep else selections(nv)[:4] + selections(nv)[-4:]
        if deep and not ck.thorough and batch == (2, 2):
            sels = sels[:1] + sels[4:9:2]
        progs = []
        for lab, sel, ix in sels:
            for pol in ("default", "declared"):
                progs.append((lab, sel, ix, pol))

        def f(p):
            r = {}
            for k, (lab, sel, ix, pol) in enumerate(progs):
                s = jnp.asarray(np.array(ix, np.int32)) if isinstance(sel, str) else sel
                r[str(k)] = p.unpack_field(n, **({} if sel is None else dict(indices=s)), **({} if pol == "default" else dict(dtype_policy=pol)))
            r["path"] = p.unpack_field(tuple(n.split(".")))
            return r, p.unpacked, p.as_original()
        I0 = f"{D.label} batch {batch} {n}"
        W, T = storage(D.total)
        pk = D.K.Packed(words=sds(tuple(batch) + (W,), np.uint32), tail=sds(tuple(batch) + (T,), np.uint8))
        R = go(ck, EQ, I0, f, (pk,), ["p"])
        if R is None:
            continue
        whole = {"default": R.outs["1." + n], "declared": R.outs["2." + n]}
        for k, (lab, sel, ix, pol) in list(enumerate(progs)) + [("path", ("path tuple", None, None, "default"))]:
            I = f"{I0} indices {lab} {pol}"
            (o, s), (wo, wsd) = R.outs[f"0.{k}"], whole[pol]
            exp = _obj(wo, wsd)
            if ix is not None:
                exp = exp.reshape(tuple(batch) + (nv,))[..., np.array(ix, dtype=int)] if len(ix) else np.empty(tuple(batch) + (0,), dtype=object)
            want = default_dtype(b) if pol == "default" else dt
            if ck.ob(EQ, I + " type", (tuple(s.shape), s.dtype) == (tuple(exp.shape), want), f"{s} instead of {exp.shape} {want}", w):
                ck.eqbits(EQ, I, o, exp, w)


def schema(ck, D):
    K = D.K
    w = where_of(K.bitpack_schema.__func__)
    S, SP = K.bitpack_schema(), K.Packed.bitpack_schema()
    I = D.label
    ck.ob(SCH, I + " same from both classes", S == SP, "the packed class publishes another schema", w)
    W, T = storage(D.total)
    ck.ob(SCH, I + " totals", (S["total_bits"], S["payload_bytes"], S["storage_bytes"], S["words_len"], S["tail_bytes"]) == (D.total, -(-D.total // 8), 4 * W + T, W, T) and S["mode"] == "aggregate"
          and S["words_all_len"] == -(-D.total // 32) and S["class"] == f"{K.__module__}.{K.__name__}", str({k: v for k, v in S.items() if k != "fields"}), w)
    ck.ob(SCH, I + " fields", [f["path"] for f in S["fields"]] == [n for n, *_ in D.leaves], [f["path"] for f in S["fields"]], w)
    R = go(ck, SCH, I, lambda x: x.packed, (D.inst((2,)),), ["x"])
    if R is None:
        return
    st = stream(_obj(*R.outs["words"]), _obj(*R.outs["tail"]), (2,))
    by = {f["path"]: f for f in S["fields"]}
    for n, b, sh, dt in D.leaves:
        f = by.get(n)
        if f is None:
            continue
        nv = int(np.prod(sh))
        ck.ob(SCH, f"{I} {n} description", (f["bits"], f["nvalues"], f["bit_len"], tuple(f["unpacked_shape"]), np.dtype(f["unpacked_dtype_default"]), np.dtype(f["declared_dtype"])) == (b, nv, b * nv, sh, default_dtype(b), dt), str(f), w)
        ok, why = True, ""
        for i, s in st.items():
            for j, e in enumerate(np.asarray(R.ins["x." + n][i], dtype=object).reshape(-1)):
                for k in range(b):
                    p = f["bit_offset"] + j * f["bits"] + k
                    if p >= len(s) or s[p] is not src_bit(e, k):
                        ok, why = False, f"bit {k} of value {j} is not at position {p}"
        ck.ob(SCH, f"{I} {n} position", ok, why, w)
    for p, q in zip(S["fields"], S["fields"][1:]):
        ck.ob(SCH, f"{I} {p['path']} / {q['path']} disjoint", p["bit_offset"] + p["bit_len"] <= q["bit_offset"], f"{p} {q}", w)


def bad(ck):
    D = Decl("b", [("a", (3, (2,), np.uint8)), ("n", [("b", (1, (), np.bool_))])])
    x = D.inst((2,))
    w = where_of(D.K.Packed.unpack_field)
    for lab, f in (("unknown name", lambda x: x.packed.unpack_field("zz")), ("nested name without its path", lambda x: x.packed.unpack_field("b")), ("inner structure", lambda x: x.packed.unpack_field("n")), ("policy", lambda x: x.packed.unpack_field("a", dtype_policy="zz"))):
        rejects(ck, BAD, lab, f, (x,), w)
