"""Structure types and configurations the hash analyses (C13, C14) instantiate the repository's code with."""
import contextlib, os
import numpy as np
from .trace import *
from . import kinds
from xtructure import xtructure_dataclass, FieldDescriptor as F


def cls(name, fields, **kw):
    return xtructure_dataclass(type(name, (), {"__annotations__": dict(fields), "__module__": __name__}), **kw)


@contextlib.contextmanager
def env(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, str(v))
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


@contextlib.contextmanager
def x64():
    old = jax.config.jax_enable_x64
    jax.config.update("jax_enable_x64", True)
    try:
        yield
    finally:
        jax.config.update("jax_enable_x64", old)


# field: (dtype or nested list, shape) or (dtype, shape, bits)
PLAIN = {
    "word": [("a", ("uint32", ()))],
    "words": [("a", ("uint32", (5,)))],
    "bytes1": [("a", ("uint8", ()))],
    "bytes6": [("a", ("uint8", (6,))), ("b", ("int8", (3,)))],
    "halves": [("a", ("uint16", (3,))), ("b", ("int16", ())), ("c", ("float16", (2, 1))), ("d", ("bfloat16", (3,)))],
    "flags": [("a", ("bool", (5,))), ("b", ("bool", ()))],
    "signed": [("a", ("int8", (2,))), ("b", ("int16", (2,))), ("c", ("int32", (2,)))],
    "floats": [("a", ("float32", (2,))), ("b", ("float16", ())), ("c", ("bfloat16", ()))],
    "mixed": [("f", ("bool", ())), ("u", ("uint16", ())), ("n", ([("x", ("float32", (2,))), ("m", ([("y", ("uint8", (3,))), ("z", ("int32", ()))], (2,)))], ())), ("w", ("uint32", (2, 2)))],
    "empty field first": [("e", ("uint8", (0,))), ("a", ("uint32", (2,)))],
    "empty field last": [("a", ("uint16", (3,))), ("e", ("float32", (0,)))],
    "only empty fields": [("e", ("uint8", (0,))), ("g", ("uint32", (0, 2)))],
    "matrix": [("a", ("uint8", (3, 3))), ("b", ("uint32", (2, 2)))],
}
WIDE = {
    "longs": [("a", ("uint64", (2,))), ("b", ("int64", ())), ("c", ("float64", (2,)))],
    "long mix": [("k", ("uint8", (3,))), ("a", ("float64", ())), ("f", ("bool", ())), ("b", ("uint64", ())), ("h", ("float16", ())), ("c", ("uint32", ()))],
    "no longs": [("a", ("uint32", (2,))), ("b", ("float32", ())), ("c", ("uint16", ())), ("d", ("bool", (2,)))],
}
AGG = {
    "documented": [("flags", ("bool", (17,), 1)), ("faces", ("uint8", (2, 3), 3)), ("codes", ("uint16", (5,), 12))],
    "exact words": [("a", ("uint32", (2,), 32))],
    "tail only": [("a", ("uint8", (3,), 5))],
    "one byte tail": [("a", ("uint32", (), 32)), ("b", ("uint8", (), 7))],
    "two byte tail": [("a", ("uint32", (), 32)), ("b", ("uint16", (), 9))],
    "large remainder": [("a", ("uint32", (), 32)), ("b", ("uint32", (), 17))],
    "nested": [("inner", ([("a", ("uint8", (6,), 4)), ("codes", ("uint16", (5,), 12))], ())), ("flags", ("bool", (7,), 1))],
}


def build(name, fields, agg=False):
    def mk(fs, nm, kw):
        ann = {}
        for n, f in fs:
            t, sh, b = (*f, None) if len(f) == 2 else f
            dt = mk(t, nm + "_" + n, {}) if isinstance(t, list) else jnp.dtype(t)
            ann[n] = F.tensor(dtype=dt, shape=sh, bits=b) if sh else F.scalar(dtype=dt, bits=b)
        c = cls(nm, ann, **kw)
        mk.sub.append((fs, c))
        return c
    mk.sub = []
    K = mk(fields, "".join(x for x in name if x.isalnum()).capitalize(), dict(aggregate_bitpack=True) if agg else {})
    K._xv_sub = mk.sub
    return K


def inst(K, fields, batch=()):
    def go(fs):
        c = next(c for f, c in K._xv_sub if f is fs)
        out = {}
        for n, f in fs:
            out[n] = (go_b(f[0], f[1]) if isinstance(f[0], list) else sds(bt[-1] + tuple(f[1]), jnp.dtype(f[0])))
        return c(**out)

    def go_b(fs, sh):
        bt.append(bt[-1] + tuple(sh))
        r = go(fs)
        bt.pop()
        return r
    bt = [tuple(batch)]
    return go(fields)


def leaves(fields, prefix=""):
    """[(path, dtype, declared bits or None)]"""
    out = []
    for n, f in fields:
        if isinstance(f[0], list):
            out += leaves(f[0], prefix + n + ".")
        else:
            out.append((prefix + n, jnp.dtype(f[0]), f[2] if len(f) > 2 else None))
    return out
