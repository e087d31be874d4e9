"""Representative structure types the analyses instantiate the repository's generic code with."""
from .trace import *
from xtructure import xtructure_dataclass, FieldDescriptor as F


@xtructure_dataclass
class Scal:
    a: F.scalar(dtype=jnp.uint8)
    b: F.scalar(dtype=jnp.float32)


@xtructure_dataclass
class Wide:
    flag: F.scalar(dtype=jnp.bool_)
    u16: F.scalar(dtype=jnp.uint16)
    i8: F.scalar(dtype=jnp.int8)
    i32: F.scalar(dtype=jnp.int32)
    f16: F.scalar(dtype=jnp.float16)
    bf: F.scalar(dtype=jnp.bfloat16)
    vec: F.tensor(dtype=jnp.float32, shape=(2,))
    mat: F.tensor(dtype=jnp.uint32, shape=(2, 3))


@xtructure_dataclass
class Nest:
    z: F.scalar(dtype=jnp.uint32)
    inner: F.scalar(dtype=Scal)
    m: F.tensor(dtype=jnp.int32, shape=(3,))


@xtructure_dataclass
class Deep:
    n: F.scalar(dtype=Nest)
    w: F.scalar(dtype=Wide)
    arr: F.tensor(dtype=Scal, shape=(2,))


@xtructure_dataclass
class One:
    x: F.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Packed:
    p: F.packed_tensor(packed_bits=3, shape=(5,))
    q: F.scalar(dtype=jnp.uint16)


ALL = [One, Scal, Wide, Nest, Deep, Packed]

# the declarations again, independently of the repository's own descriptor table
SPECS = {
    Scal: dict(a=("uint8", ()), b=("float32", ())),
    Wide: dict(flag=("bool", ()), u16=("uint16", ()), i8=("int8", ()), i32=("int32", ()), f16=("float16", ()), bf=("bfloat16", ()),
               vec=("float32", (2,)), mat=("uint32", (2, 3))),
    Nest: dict(z=("uint32", ()), inner=(Scal, ()), m=("int32", (3,))),
    One: dict(x=("uint32", ())),
    Packed: dict(p=("uint8", (3,)), q=("uint16", ())),
}
SPECS[Deep] = dict(n=(Nest, ()), w=(Wide, ()), arr=(Scal, (2,)))


def make(K, batch=()):
    """abstract instance of K with the given batch shape"""
    return K(**{n: make(t, tuple(batch) + sh) if isinstance(t, type) else sds(tuple(batch) + sh, jnp.dtype(t)) for n, (t, sh) in SPECS[K].items()})


def leaf_specs(K, prefix="", batch=()):
    """[(path, dtype, shape)] of every leaf, in declared order"""
    out = []
    for n, (t, sh) in SPECS[K].items():
        if isinstance(t, type):
            out += leaf_specs(t, prefix + n + ".", tuple(batch) + sh)
        else:
            out.append((prefix + n, jnp.dtype(t), tuple(batch) + sh))
    return out
