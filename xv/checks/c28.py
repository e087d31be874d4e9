"""C28 saving and loading: load(save(x)) lowered through a model of the npz container; every loaded leaf must be the saved leaf."""
import io, itertools, os, pathlib, sys, types
import numpy as np
from ..trace import *
from ..common import *
from .. import kinds, hashkinds as H
from .c15 import low
from xtructure import xtructure_dataclass, FieldDescriptor as F
import xtructure.io as xio
import xtructure.io.io as impl

SAME = "loading returns an instance of the saved class"
LEAF = "every loaded field holds exactly the saved field"
META = "every loaded field has the saved dtype and shape"
OTHER = "loading as a different class raises"
DAMAGED = "a file with a missing part is not loaded as a different instance"
BADMETA = "a file whose class cannot be found is rejected"
BAD = "saving something that is not a structure is rejected"
PURE = "saving does not change the instance"
PATH = "each path keeps its own instance"

ME = sys.modules[__name__]


def reg(name, ann, **kw):
    """a structure class that can be found again as an attribute of this module"""
    K = xtructure_dataclass(type(name, (), {"__annotations__": ann, "__module__": __name__, "__qualname__": name}), **kw)
    setattr(ME, name, K)
    return K


class Outer:
    @xtructure_dataclass
    class Scal:                                  # same simple name as a class elsewhere
        a: F.scalar(dtype=jnp.uint8, bits=3)
        b: F.scalar(dtype=jnp.bool_, bits=1)

    class Deeper:
        @xtructure_dataclass
        class Scal:
            x: F.scalar(dtype=jnp.float32)


@xtructure_dataclass
class Scal:
    x: F.scalar(dtype=jnp.int32)


@xtructure_dataclass
class Leafy:
    lo: F.tensor(dtype=jnp.uint8, shape=(5,), bits=3)
    hi: F.tensor(dtype=jnp.uint16, shape=(3,), bits=12)
    raw: F.scalar(dtype=jnp.int8)


@xtructure_dataclass
class Mixed:
    lo: F.scalar(dtype=jnp.uint32, bits=17)
    leaf: F.scalar(dtype=Leafy)
    many: F.tensor(dtype=Leafy, shape=(2,))
    flag: F.tensor(dtype=jnp.bool_, shape=(9,), bits=1)
    raw: F.tensor(dtype=jnp.float16, shape=(2, 2))


@xtructure_dataclass
class Tricky:                                    # names that look like parts of each other
    a: F.scalar(dtype=jnp.uint8)
    a_b: F.scalar(dtype=jnp.uint8)
    data: F.scalar(dtype=jnp.uint8, bits=5)
    shape_: F.scalar(dtype=jnp.uint8, bits=5)
    bits: F.scalar(dtype=jnp.uint8)
    path: F.scalar(dtype=jnp.int16)
    instance: F.scalar(dtype=jnp.int16)
    arr_0: F.scalar(dtype=jnp.int16)
    packed_: F.scalar(dtype=jnp.uint16, bits=9)


@xtructure_dataclass(validate=True)
class Checked:
    v: F.tensor(dtype=jnp.uint8, shape=(4,), bits=4)
    w: F.scalar(dtype=jnp.bfloat16)



@xtructure_dataclass
class NamedFile:                                 # names of parameters of the container writer
    file: F.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class NamedPickle:
    allow_pickle: F.scalar(dtype=jnp.uint8)


# ---------------------------------------------------------------- the storage model
class Raw:
    """an array of raw bytes: what the npz format returns for dtypes it has no name for"""
    def __init__(self, x):
        self.x = x
        self.dtype = np.dtype(("V", np.dtype(x.dtype).itemsize))
        self.shape, self.ndim, self.size = tuple(x.shape), len(x.shape), int(np.prod(x.shape))

    def view(self, dt):
        dt = np.dtype(dt)
        if dt == np.dtype(self.x.dtype):
            return self.x
        if dt.itemsize != self.dtype.itemsize:
            raise ValueError("changing the item size of raw bytes")
        return jax.lax.bitcast_convert_type(self.x, dt)

    def astype(self, dt, *a, **k):
        raise TypeError("no cast from raw bytes")


def extended(dt):
    dt = np.dtype(dt)
    return dt.kind == "V" or dt.type.__module__.startswith("ml_dtypes")


def traced(x):
    return isinstance(x, jax.core.Tracer)


class Disk:
    """paths and the parts stored under them; what goes through byte streams is represented by a token"""
    def __init__(self):
        self.files, self.tokens = {}, []

    def token(self, parts):
        self.tokens.append(parts)
        return b"XVNPZ%08d" % (len(self.tokens) - 1)

    def parts(self, data):
        if not (data[:5] == b"XVNPZ" and len(data) == 13):
            raise ValueError("not an npz file")
        return self.tokens[int(data[5:])]

    def open(self, path, mode="r", *a, **k):
        return Handle(self, os.fspath(path), mode)

    def exists(self, path):
        return os.fspath(path) in self.files or any(f.startswith(os.fspath(path) + "/") for f in self.files)


class Handle(io.BytesIO):
    def __init__(self, disk, path, mode):
        self.disk, self.name, self.mode = disk, path, mode
        if "r" in mode and path not in disk.files:
            raise FileNotFoundError(path)
        if "x" in mode and path in disk.files:
            raise FileExistsError(path)
        super().__init__(disk.token(disk.files[path]) if "r" in mode else b"")

    def close(self):
        if not self.closed and "r" not in self.mode:
            self.disk.files[self.name] = dict(self.disk.parts(self.getvalue()))
        super().close()

    def __exit__(self, *a):
        self.close()


class NpzFile:
    def __init__(self, d, pickles):
        self.d, self.files, self.allow_pickle = d, list(d), pickles

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.d = None

    def close(self):
        self.d = None

    def __contains__(self, k):
        return k in self.d or (k.endswith(".npy") and k[:-4] in self.d)

    def __iter__(self):
        return iter(self.files)

    def __len__(self):
        return len(self.files)

    def keys(self):
        return list(self.d)

    def items(self):
        return [(k, self[k]) for k in self.d]

    def values(self):
        return [self[k] for k in self.d]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __getitem__(self, k):
        if self.d is None:
            raise ValueError("the file is closed")
        if k not in self.d and k.endswith(".npy") and k[:-4] in self.d:
            k = k[:-4]
        v = self.d[k] if k in self.d else (_ for _ in ()).throw(KeyError(f"{k} is not a file in the archive"))
        if not traced(v) and v.dtype == object and not self.allow_pickle:
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        return Raw(v) if extended(v.dtype) else v


class NP:
    """numpy as the io module sees it: conversions keep abstract arrays abstract, npz files live in the model"""
    def __init__(self, disk):
        self._disk = disk

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def _conv(np_fn):
        def f(x, dtype=None, *a, **k):
            if isinstance(x, Raw):
                if dtype is None or np.dtype(dtype) == x.dtype:
                    return x
                raise TypeError("no cast from raw bytes")
            if traced(x):
                return x if dtype is None else jnp.asarray(x, dtype=dtype)
            return np_fn(x, dtype, *a, **k) if dtype is not None or a or k else np_fn(x)
        return f
    array = staticmethod(_conv.__func__(np.array))
    asarray = staticmethod(_conv.__func__(np.asarray))
    asanyarray = staticmethod(_conv.__func__(np.asanyarray))
    ascontiguousarray = staticmethod(_conv.__func__(np.ascontiguousarray))

    def savez_compressed(self, file, *args, allow_pickle=True, **kwds):
        d = dict(kwds)
        for k, v in enumerate(args):
            if f"arr_{k}" in d:
                raise ValueError(f"Cannot use un-named variables and keyword arr_{k}")
            d[f"arr_{k}"] = v
        out = {}
        for k, v in d.items():
            v = v if traced(v) else np.asanyarray(v)
            if not traced(v) and v.dtype == object and not allow_pickle:
                raise ValueError("Object arrays cannot be saved when allow_pickle=False")
            out[k] = v
        if hasattr(file, "write"):
            file.write(self._disk.token(out))
            return
        file = os.fspath(file)
        self._disk.files[file if file.endswith(".npz") else file + ".npz"] = out

    savez = savez_compressed

    def load(self, file, mmap_mode=None, allow_pickle=False, **k):
        if hasattr(file, "read"):
            return NpzFile(dict(self._disk.parts(file.read())), allow_pickle)
        file = os.fspath(file)
        if file not in self._disk.files:
            raise FileNotFoundError(file)
        return NpzFile(dict(self._disk.files[file]), allow_pickle)


class OSPath:
    def __init__(self, disk):
        self._disk = disk

    def __getattr__(self, n):
        return getattr(os.path, n)

    def exists(self, p):
        return self._disk.exists(p)

    def isfile(self, p):
        return os.fspath(p) in self._disk.files

    def isdir(self, p):
        return not self.isfile(p)

    def getsize(self, p):
        return 13 if self.isfile(p) else (_ for _ in ()).throw(FileNotFoundError(p))


def model_path(disk):
    class Path(pathlib.PurePosixPath):
        def mkdir(self, *a, **k):
            return None

        def exists(self):
            return disk.exists(self)

        def is_file(self):
            return str(self) in disk.files

        def open(self, mode="r", *a, **k):
            return disk.open(self, mode)

        def replace(self, to):
            disk.files[os.fspath(to)] = disk.files.pop(str(self))

        rename = replace

        def unlink(self, missing_ok=False):
            disk.files.pop(str(self), None) if missing_ok else disk.files.pop(str(self))

        def resolve(self, *a):
            return self

        absolute = expanduser = resolve
    return Path


class OS:
    """the file-system calls of the io module act on the model"""
    def __init__(self, disk):
        self._disk = disk

    def __getattr__(self, n):
        return getattr(os, n)

    @property
    def path(self):
        return OSPath(self._disk)

    def makedirs(self, *a, **k):
        return None

    mkdir = makedirs
    fsync = makedirs

    def replace(self, a, b):
        self._disk.files[os.fspath(b)] = self._disk.files.pop(os.fspath(a))

    rename = replace

    def remove(self, a):
        del self._disk.files[os.fspath(a)]

    unlink = remove


class model:
    """run the io module against the storage model"""
    def __init__(self):
        self.disk = Disk()

    def __enter__(self):
        self.saved, self.opened = [], []
        for mn, m in list(sys.modules.items()):
            if mn == "xtructure.io" or mn.startswith("xtructure.io."):
                P = model_path(self.disk)
                new = [(np, NP(self.disk)), (os, OS(self.disk)), (os.path, OSPath(self.disk)), (pathlib, types.SimpleNamespace(Path=P, PurePath=pathlib.PurePath)), (pathlib.Path, P)]
                new += [(getattr(np, n), getattr(NP(self.disk), n)) for n in ("load", "savez", "savez_compressed", "asarray", "array")]
                new += [(getattr(os, n), getattr(OS(self.disk), n)) for n in ("makedirs", "replace", "rename", "remove", "fsync")]
                for attr, val in list(vars(m).items()):
                    for ref, sub in new:
                        if val is ref:
                            self.saved.append((m, attr, ref))
                            setattr(m, attr, sub)
                if "open" not in vars(m):
                    m.open = self.disk.open
                    self.opened.append(m)
        if not self.saved:
            from ..report import AnchorLost
            raise AnchorLost("the io package no longer uses numpy by name: the storage model has nothing to attach to")
        return self.disk

    def __exit__(self, *a):
        for m, attr, ref in self.saved:
            setattr(m, attr, ref)
        for m in self.opened:
            del m.open


# ---------------------------------------------------------------- classes and instances
def leaf_table(K, prefix="", batch=()):
    """[(path, dtype, shape, bits or None)] from the declarations"""
    from xtructure.core.field_descriptors import get_field_descriptors
    out = []
    for n, d in get_field_descriptors(K).items():
        if hasattr(d.dtype, "is_xtructed"):
            out += leaf_table(d.dtype, prefix + n + ".", tuple(batch) + tuple(d.intrinsic_shape))
        else:
            out.append((prefix + n, jnp.dtype(d.dtype), tuple(batch) + tuple(d.intrinsic_shape), None if d.packed_bits is not None else d.bits))
    return out


def instance(K, batch):
    """abstract instance (nothing is computed)"""
    return abstract(lambda: build(K, batch))


def build(K, batch):
    from xtructure.core.field_descriptors import get_field_descriptors
    return K(**{n: build(d.dtype, tuple(batch) + tuple(d.intrinsic_shape)) if hasattr(d.dtype, "is_xtructed") else jnp.zeros(tuple(batch) + tuple(d.intrinsic_shape), jnp.dtype(d.dtype))
                for n, d in get_field_descriptors(K).items()})


def fit(K, prefix=""):
    """restrict an abstract instance to values within the declared widths (the property's precondition)"""
    tab = leaf_table(K)

    def f(x):
        ls, td = jax.tree_util.tree_flatten(x)
        out = []
        for l, (p, dt, sh, b) in zip(ls, tab):
            if b is not None and dt != np.dtype(bool) and b < 8 * dt.itemsize:
                l = l & jnp.asarray((1 << b) - 1, dt)
            out.append(l)
        return jax.tree_util.tree_unflatten(td, out)
    return f


BASE = kinds.ALL + [Outer.Scal, Outer.Deeper.Scal, Scal, Leafy, Mixed, Tricky, Checked]


def run(ck):
    ck.assume += ["the npz container is modelled: names and bytes are kept, extended dtypes come back as raw bytes of the same width, object arrays are refused, '.npz' is appended to other paths on saving; compression, the zip format and the file system itself are outside",
                  "values lie within the declared bit width of their field; paths end in .npz; classes can be found under their module and qualified name",
                  "the view classes of unpacked aggregates (`x.packed.unpacked`) are not reachable by a qualified name: saving them is outside"]
    ck.fan([("plain", {}), ("widths0", {}), ("widths1", {}), ("cross", {}), ("damage", {}), ("x64", {}), ("sizes", {})])


def part(ck, label):
    globals()["p_" + label.rstrip("01")](ck, label)


def W(f=None):
    return where_of(f or impl.load)


def roundtrip(ck, K, batch, packed, how="method"):
    inst = f"{K.__qualname__} batch {list(batch)} packed={packed} {how}"
    tab = leaf_table(K)
    clsbox = []

    def prog(x):
        y = fit(K)(x)
        with model() as disk:
            before = jax.tree_util.tree_leaves(y)
            p = "xv-model/a.npz"
            if how == "method":
                y.save(p) if packed is None else y.save(p, packed=packed)
                z = K.load(p)
            else:
                xio.save(p, y) if packed is None else xio.save(p, y, packed=packed)
                z = xio.load(p)
            after = jax.tree_util.tree_leaves(y)
            clsbox[:] = [type(z), jax.tree_util.tree_structure(z), all(a is b for a, b in zip(before, after)) and len(before) == len(after)]
            return jax.tree_util.tree_leaves(z), y
    x = guard(ck, SAME, inst, lambda: instance(K, batch))
    R = go(ck, SAME, inst, prog, (x,), ["x"])
    if R is None:
        return
    ck.ob(SAME, inst, clsbox[0] is K and clsbox[1] == jax.tree_util.tree_structure(x), f"{clsbox[0]} {clsbox[1]}", W())
    ck.ob(PURE, inst, clsbox[2], "", W(impl.save))
    got, y = R.out
    ck.ob(META, inst, len(got) == len(tab), f"{len(got)} leaves instead of {len(tab)}", W())
    for (p, dt, sh, b), g, e in zip(tab, got, jax.tree_util.tree_leaves(y)):
        ck.ob(META, f"{inst}.{p}", (g.shape, np.dtype(g.dtype)) == (tuple(batch) + sh, np.dtype(dt)), f"{g.dtype}{list(g.shape)} instead of {dt}{list(tuple(batch) + sh)}", W())
        if g.shape == e.shape:
            (ck.eqbits if b is not None else ck.eq)(LEAF, f"{inst}.{p}", g.v, e.v, W())


def p_plain(ck, label):
    for K in BASE:
        for batch in ((), (3,), (2, 2), (0,)):
            for packed in (None, True, False):
                roundtrip(ck, K, batch, packed)
            roundtrip(ck, K, batch, None, "function")
            roundtrip(ck, K, batch, False, "function")
        P = getattr(K, "Packed", None)
        if P is not None and hasattr(P, "is_xtructed"):
            for batch in ((), (3,)):
                roundtrip(ck, P, batch, None)
    # dtypes, one class each
    for k, dt in enumerate(["bool", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float16", "bfloat16", "float32", "complex64", "float8_e4m3fn", "float8_e5m2"]):
        K = guard(ck, SAME, dt, lambda: reg(f"Dt{k}", dict(x=F.scalar(dtype=jnp.dtype(dt), default=0), t=F.tensor(dtype=jnp.dtype(dt), shape=(2, 3), fill_value=0), z=F.tensor(dtype=jnp.dtype(dt), shape=(0,), fill_value=0))))
        for packed in (True, False):
            roundtrip(ck, K, (2,), packed)
    for K in (NamedFile, NamedPickle):
        roundtrip(ck, K, (2,), None)
    rejects(ck, BAD, "a plain array", lambda x: save_in_model(x), (sds((3,), np.float32),), W(impl.save))
    rejects(ck, BAD, "a tuple of structures", lambda x: save_in_model((x, x)), (kinds.make(kinds.Scal),), W(impl.save))
    # several files at once
    def two(x, y):
        with model():
            x.save("xv-model/a.npz"); y.save("xv-model/b.npz")
            z = kinds.Scal.load("xv-model/a.npz"), Leafy.load("xv-model/b.npz")
            y.save("xv-model/a.npz")
            return z + (Leafy.load("xv-model/a.npz"),)
    args = (kinds.make(kinds.Scal, (3,)), instance(Leafy, (2,)))
    R = go(ck, PATH, "two files, one overwritten", lambda x, y: (two(x, fit(Leafy)(y)), fit(Leafy)(y)), args, ["x", "y"])
    if R is not None:
        (a, b, c), y = R.out
        for nm, g, e in (("first", a, None), ("second", b, y), ("overwritten", c, y)):
            for q, (p, gl) in enumerate(leaf_paths(g)):
                ev = R.ins["x." + p] if e is None else jax.tree_util.tree_leaves(e)[q].v
                ck.eqbits(PATH, f"{nm}.{p}", gl.v, ev, W())


def save_in_model(x):
    with model():
        xio.save("xv-model/a.npz", x)
    return 0


def widths():
    out = []
    for b in range(1, 33):
        dts = (["bool"] if b == 1 else []) + [t for t in ("uint8", "uint16", "uint32", "int8", "int16", "int32") if b <= 8 * np.dtype(t).itemsize - (t[0] == "i")]
        for dt in dts:
            out.append((b, dt))
    return out


def p_widths(ck, label):
    todo = [q for k, q in enumerate(widths()) if k % 2 == int(label[-1])]
    for b, dt in todo:
        K = guard(ck, SAME, f"{b} bits {dt}", lambda: reg(f"W{b}_{dt}", dict(s=F.scalar(dtype=jnp.dtype(dt), bits=b), t=F.tensor(dtype=jnp.dtype(dt), shape=(5,), bits=b), o=F.scalar(dtype=jnp.float32))))
        if K is None:
            continue
        for batch in ((), (3,)) + (((0,), (2, 2), (9,)) if ck.thorough else ()):
            roundtrip(ck, K, batch, None)
        if b in (1, 3, 8, 12):
            roundtrip(ck, K, (3,), False)


def p_x64(ck, label):
    with H.x64():
        for dt in ("int64", "uint64", "float64", "complex128", "int32", "float32"):
            K = guard(ck, SAME, dt, lambda: reg(f"X{dt}", dict(x=F.scalar(dtype=jnp.dtype(dt), default=0), t=F.tensor(dtype=jnp.dtype(dt), shape=(2,), fill_value=0))))
            for packed in (True, False):
                roundtrip(ck, K, (3,), packed)
        for b, dt in ((1, "uint64"), (7, "int64"), (12, "uint64"), (31, "int64"), (32, "uint64"), (32, "int64"), (9, "uint32")):
            K = guard(ck, SAME, f"{b} bits {dt}", lambda: reg(f"XW{b}_{dt}", dict(x=F.scalar(dtype=jnp.dtype(dt), bits=b), t=F.tensor(dtype=jnp.dtype(dt), shape=(3,), bits=b))))
            if K is not None:
                roundtrip(ck, K, (2,), None)
        for K in (Mixed, kinds.Wide):
            roundtrip(ck, K, (2,), None)


@xtructure_dataclass
class Sized:
    t1: F.scalar(dtype=jnp.bool_, bits=1)
    t3: F.scalar(dtype=jnp.uint8, bits=3)
    t8: F.scalar(dtype=jnp.int16, bits=8)
    t12: F.scalar(dtype=jnp.uint16, bits=12)
    t32: F.scalar(dtype=jnp.uint32, bits=32)
    raw: F.scalar(dtype=jnp.float32)


def p_sizes(ck, label):
    """the recorded sizes survive every extent: fully for a middle one, by the lowered types alone for large ones"""
    roundtrip(ck, Sized, (300,), None)
    roundtrip(ck, Sized, (2, 131), None)
    for batch in ((127,), (128,), (255,), (256,), (257,), (3, 300), (300, 3), (32767,), (32768,), (65535,), (65536,), (70000,), (2, 40000), (256, 256), (1, 1, 1, 1, 300), (1 << 20,), (1 << 24,)):
        for K in (Sized, Leafy):
            inst = f"{K.__qualname__} batch {list(batch)}"
            cls = []

            def prog(x):
                with model():
                    x.save("xv-model/a.npz")
                    z = K.load("xv-model/a.npz")
                cls[:] = [type(z)]
                return z
            x = instance(K, batch)
            try:
                _, o = lower(prog, (x,))
            except TraceError as e:
                ck.crash(META, inst, e)
                continue
            ck.ob(SAME, inst, cls[0] is K, "", W())
            got, exp = [[(p, tuple(l.shape), str(l.dtype)) for p, l in leaf_paths(q)] for q in (o, x)]
            ck.ob(META, inst, got == exp, f"{got} instead of {exp}", W())


def p_cross(ck, label):
    for A, B_ in itertools.permutations(BASE, 2):
        def prog(x):
            with model():
                x.save("xv-model/a.npz")
                return jax.tree_util.tree_leaves(B_.load("xv-model/a.npz"))
        rejects(ck, OTHER, f"{A.__module__}.{A.__qualname__} loaded as {B_.__module__}.{B_.__qualname__}", prog, (instance(A, (2,)),), W(B_.load))
    for A in BASE:
        P = getattr(A, "Packed", None)
        if P is None or not hasattr(P, "is_xtructed"):
            continue
        for X, Y in ((A, P), (P, A)):
            def prog(x):
                with model():
                    x.save("xv-model/a.npz")
                    return jax.tree_util.tree_leaves(Y.load("xv-model/a.npz"))
            rejects(ck, OTHER, f"{X.__qualname__} loaded as {Y.__qualname__}", prog, (instance(X, (2,)),), W(Y.load))


def stored(K, batch, packed):
    """names of the parts of a saved file"""
    keys = []

    def prog(x):
        with model() as d:
            x.save("xv-model/a.npz", packed=packed)
            keys[:] = list(d.files["xv-model/a.npz"])
        return 0
    lower(prog, (instance(K, batch),))
    return keys


def p_damage(ck, label):
    for K in BASE:
        for packed in (True, False):
            for batch in ((), (3,)):
                try:
                    keys = stored(K, batch, packed)
                except TraceError as e:
                    ck.crash(SAME, f"{K.__qualname__} packed={packed}", e)
                    continue
                for k in keys:
                    inst = f"{K.__qualname__} batch {list(batch)} packed={packed} without {k}"
                    box = []

                    def prog(x):
                        y = fit(K)(x)
                        with model() as d:
                            y.save("xv-model/a.npz", packed=packed)
                            d.files["xv-model/a.npz"].pop(k, None)
                            z = xio.load("xv-model/a.npz")
                            box[:] = [type(z), jax.tree_util.tree_structure(z)]
                            return jax.tree_util.tree_leaves(z), y
                    x = instance(K, batch)
                    try:
                        R = analyze(prog, (x,), ["x"])
                    except TraceError:
                        ck.ob(DAMAGED, inst, True, where=W())
                        continue
                    ck.saw(R.I)
                    # loaded all the same: then the part was redundant and the instance is the saved one
                    got, y = R.out
                    ok = box[0] is K and box[1] == jax.tree_util.tree_structure(x) and len(got) == len(leaf_table(K))
                    ck.ob(DAMAGED, inst, ok, f"loads as {box[0]} {box[1]}", W())
                    for (p, dt, sh, b), g, e in zip(leaf_table(K), got, jax.tree_util.tree_leaves(y)):
                        ck.ob(DAMAGED, f"{inst}: {p} type", (g.shape, np.dtype(g.dtype)) == (e.shape, np.dtype(e.dtype)), f"{g.dtype}{list(g.shape)}", W())
                        if g.shape == e.shape:
                            ck.eqbits(DAMAGED, f"{inst}: {p}", g.v, e.v, W())
    for mod, cn in (("xv.checks.c28", "NoSuchClass"), ("no_such_module_xv", "Scal"), ("xv.checks.c28", ""), ("", "Scal"), ("builtins", "dict"), ("xv.checks.c28", "Outer"), ("xv.checks.c28", "Outer.Nothing"), ("collections", "OrderedDict")):
        def prog(x):
            with model() as d:
                x.save("xv-model/a.npz")
                f = d.files["xv-model/a.npz"]
                f[impl.METADATA_MODULE_KEY], f[impl.METADATA_CLASS_NAME_KEY] = np.array(mod), np.array(cn)
                z = xio.load("xv-model/a.npz")
                return jax.tree_util.tree_leaves(z)
        rejects(ck, BADMETA, f"module {mod!r} class {cn!r}", prog, (kinds.make(kinds.Scal, (2,)),), W())

    def nofile():
        with model():
            return jax.tree_util.tree_leaves(xio.load("xv-model/none.npz"))
    rejects(ck, BADMETA, "no such file", nofile, (), W())
