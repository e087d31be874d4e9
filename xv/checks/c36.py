"""C36 published interface: every member the protocol declares, matched against what decoration puts on a class; members of the user's own."""
import dataclasses, inspect, itertools
import numpy as np
from ..trace import *
from .. import kinds
from ..common import *
import xtructure
from xtructure import xtructure_dataclass, FieldDescriptor as F, Xtructurable
from xtructure.core import type_utils

HAS = "every published member is there, of its declared kind and taking its declared arguments"
ISA = "an object counts as a structure exactly when its class was decorated"
OWN = "members and identity of the decorated class itself are kept"
PRM = "the published call builds"


class Mixin:
    def mixed(self):
        return "mixed"

    @classmethod
    def cmixed(cls):
        return cls.__name__


def body(extra=None):
    return dict({"__annotations__": {"a": F.scalar(dtype=jnp.uint8, bits=3), "b": F.tensor(dtype=jnp.uint16, shape=(2,), bits=9)}, "__module__": "xv.generated", "__doc__": "A doc.", "__qualname__": "Host.Own", "LIMIT": 7,
                 "own": lambda self, q=2: ("own", q), "prop": property(lambda self: "prop"), "cm": classmethod(lambda cls, n=1: (cls.__name__, n)), "sm": staticmethod(lambda n: n + 1), "_hidden": lambda self: "hidden", "__call__": lambda self, x: ("called", x),
                 "__contains__": lambda self, x: x == 3, "__abs__": lambda self: "abs"}, **(extra or {}))


def classes():
    for bitpack, validate in itertools.product(("auto", "aggregate", "field", "off"), (False, True)):
        yield f"bitpack={bitpack} validate={validate}", xtructure_dataclass(type("Own", (Mixin,), body()), bitpack=bitpack, validate=validate)
    yield "plain decorator", xtructure_dataclass(type("Own", (Mixin,), body()))
    yield "aggregate_bitpack=True", xtructure_dataclass(type("Own", (Mixin,), body()), aggregate_bitpack=True)


def published(P):
    for n, m in vars(P).items():
        if n.startswith("_") and n not in ("__getitem__", "__len__", "__str__", "__eq__", "__ne__") or n in ("is_xtructed",):
            continue
        if isinstance(m, property):
            yield n, "property", None
        elif isinstance(m, classmethod):
            yield n, "classmethod", m.__func__
        elif inspect.isfunction(m):
            yield n, "method", m
    for n in getattr(P, "__annotations__", {}):
        yield n, "property", None


def binds(fn, proto, bound_first):
    """the arguments the protocol names can be given, by position and by name"""
    ps = list(inspect.signature(proto).parameters.values())[1:]
    sig = inspect.signature(fn)
    o = object()
    pos = [o for q in ps if q.kind is q.POSITIONAL_OR_KEYWORD]
    var = [o, o] if any(q.kind is q.VAR_POSITIONAL for q in ps) else []
    req = [o for q in ps if q.kind is q.POSITIONAL_OR_KEYWORD and q.default is q.empty]
    kwv = {"zz": o} if any(q.kind is q.VAR_KEYWORD for q in ps) else {}
    try:
        if not var:
            sig.bind(*req)
        sig.bind(*pos, *var, **kwv)
        if any(q.kind is q.VAR_POSITIONAL for q in ps):
            sig.bind(o)
    except TypeError as e:
        return str(e)
    return None


def run(ck):
    ck.assume += ["the published interface is the protocol class `Xtructurable` as it stands; argument names are matched by position, defaults by presence"]
    w0 = where_of(xtructure_dataclass)
    todo = [(K.__name__, K) for K in kinds.ALL] + list(classes())
    for lab, K in todo:
        has(ck, lab, K, w0)
        isa(ck, lab, K, w0)
    for lab, K in classes():
        own(ck, lab, K, w0)
    calls(ck)
    others(ck)


def has(ck, lab, K, w):
    for n, kind, proto in published(Xtructurable):
        I = f"{lab}.{n}"
        m = inspect.getattr_static(K, n, None)
        if not ck.ob(HAS, I, m is not None, "missing", w):
            continue
        if kind == "property":
            ck.ob(HAS, I + " kind", not callable(getattr(K, n)) or isinstance(m, property) or inspect.isclass(getattr(K, n)), f"{type(m).__name__} instead of a property", w)
            continue
        if kind == "classmethod":
            b = getattr(K, n)
            ck.ob(HAS, I + " kind", callable(b) and getattr(b, "__self__", K) is K and not isinstance(m, property), type(m).__name__, where_of(b))
        else:
            ck.ob(HAS, I + " kind", callable(m) and not isinstance(m, (classmethod, staticmethod, property)), type(m).__name__, w)
            b = drop_self(getattr(K, n))
        try:
            why = binds(b, proto, True)
        except ValueError:
            continue
        ck.ob(HAS, I + " arguments", why is None, why, where_of(getattr(K, n)))


def drop_self(f):
    sig = inspect.signature(f)
    ps = list(sig.parameters.values())
    if ps and ps[0].kind is not ps[0].VAR_POSITIONAL:
        ps = ps[1:]

    def g(*a, **k):
        return None
    g.__signature__ = sig.replace(parameters=ps)
    return g


def isa(ck, lab, K, w):
    ck.ob(ISA, f"{lab} class", issubclass(K, Xtructurable) and type_utils.is_xtructure_dataclass_type(K) is True and K.is_xtructed is True, "", w)
    x = K.__new__(K)
    ck.ob(ISA, f"{lab} instance", isinstance(x, Xtructurable) and type_utils.is_xtructure_dataclass_instance(x) is True, "", w)
    ck.ob(ISA, f"{lab} instance is no class", not type_utils.is_xtructure_dataclass_type(x), "", w)


def others(ck):
    @dataclasses.dataclass
    class D:
        a: int = 1

    class Sub(dict):
        pass
    w = where_of(type_utils.is_xtructure_dataclass_type)
    for x in (D(), {}, [], (), 3, "s", None, np.zeros(3), sds((3,), np.uint8), Sub(), object(), F.scalar(dtype=jnp.uint8), np.float32(1)):
        ck.ob(ISA, f"{type(x).__name__} object", not isinstance(x, Xtructurable) and not type_utils.is_xtructure_dataclass_instance(x) and not type_utils.is_xtructure_dataclass_type(x), "", w)
        ck.ob(ISA, f"{type(x).__name__} class", not issubclass(type(x), Xtructurable) and not type_utils.is_xtructure_dataclass_type(type(x)), "", w)
    for K in (xtructure.Stack, xtructure.Queue, xtructure.BGPQ, xtructure.HashTable):
        ck.ob(ISA, f"container {K.__name__}", not issubclass(K, Xtructurable), "a container counts as a structure", w)


def own(ck, lab, K, w):
    ck.ob(OWN, f"{lab} identity", (K.__name__, K.__qualname__, K.__module__) == ("Own", "Host.Own", "xv.generated") and isinstance(K, type) and Mixin in K.__mro__, f"{K.__module__}.{K.__qualname__}", w)
    ck.ob(OWN, f"{lab} documentation", (K.__doc__ or "").startswith("A doc."), K.__doc__, w)
    x = K.__new__(K)
    for n, f, want in (("own", lambda: x.own(), ("own", 2)), ("own argument", lambda: x.own(q=5), ("own", 5)), ("prop", lambda: x.prop, "prop"), ("cm", lambda: K.cm(n=4), ("Own", 4)), ("cm on instance", lambda: x.cm(), ("Own", 1)), ("sm", lambda: K.sm(3), 4), ("sm on instance", lambda: x.sm(3), 4),
                       ("LIMIT", lambda: (K.LIMIT, x.LIMIT), (7, 7)), ("_hidden", lambda: x._hidden(), "hidden"), ("__call__", lambda: x(9), ("called", 9)), ("__contains__", lambda: (3 in x, 4 in x), (True, False)), ("__abs__", lambda: abs(x), "abs"),
                       ("inherited method", lambda: x.mixed(), "mixed"), ("inherited classmethod", lambda: K.cmixed(), "Own")):
        try:
            got = f()
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        ck.ob(OWN, f"{lab} {n}", got == want, f"{got} instead of {want}", w)
    ck.ob(OWN, f"{lab} fields", [f.name for f in dataclasses.fields(K)] == ["a", "b"], [f.name for f in dataclasses.fields(K)], w)


def calls(ck):
    """each published call, by position and by name, builds on a single and on a batched instance"""
    K = kinds.Nest
    w = where_of(xtructure_dataclass)
    key = sds((2,), np.uint32)
    one, many = kinds.make(K, ()), kinds.make(K, (4,))
    for lab, f, args in (("reshape(*shape)", lambda x: x.reshape(2, 2), (many,)), ("reshape(tuple)", lambda x: x.reshape((2, 2)), (many,)), ("flatten()", lambda x: x.flatten(), (many,)), ("transpose()", lambda x: x.transpose(), (many,)), ("transpose(axes)", lambda x: x.transpose(axes=(0,)), (many,)),
                         ("random(shape, key)", lambda k: K.random((3,), k), (key,)), ("random(shape=, key=)", lambda k: K.random(shape=(3,), key=k), (key,)), ("random(key=)", lambda k: K.random(key=k), (key,)), ("default()", lambda: K.default(), ()), ("default(shape)", lambda: K.default((3,)), ()), ("default(shape=)", lambda: K.default(shape=(3,)), ()),
                         ("hash()", lambda x: x.hash(), (one,)), ("hash(seed)", lambda x: x.hash(3), (one,)), ("hash(seed=)", lambda x: x.hash(seed=3), (one,)), ("hash_with_uint32ed(seed=)", lambda x: x.hash_with_uint32ed(seed=3), (one,)), ("hash_pair(seed=)", lambda x: x.hash_pair(seed=3), (one,)),
                         ("hash_pair_with_uint32ed(seed=)", lambda x: x.hash_pair_with_uint32ed(seed=3), (one,)), ("bytes", lambda x: x.bytes, (one,)), ("uint32ed", lambda x: x.uint32ed, (one,)), ("to_tuple()", lambda x: x.to_tuple(), (many,)), ("from_tuple(args)", lambda x: K.from_tuple(args=x.to_tuple()) if "args" in inspect.signature(K.from_tuple).parameters else K.from_tuple(x.to_tuple()), (many,)),
                         ("replace(**)", lambda x: x.replace(z=x.z), (many,)), ("at[].set(value)", lambda x: x.at[0].set(x[1]), (many,)), ("at[].set_as_condition(condition, value)", lambda x, c: x.at[0].set_as_condition(c, x[1]), (many, sds((), bool))), ("==", lambda x: x == x, (many,)), ("!=", lambda x: x != x, (many,)), ("check_invariants()", lambda x: (x.check_invariants(), x)[1], (many,)),
                         ("shape, dtype, ndim, batch_shape", lambda x: (x.shape.batch, x.dtype.z, x.ndim, x.batch_shape, x.structured_type, x.default_shape) and x, (many,)), ("len", lambda x: x[: len(x)], (many,))):
        builds(ck, PRM, lab, f, args)
