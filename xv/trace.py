"""Front end: lower repository functions to jaxprs for abstract inputs and interpret them abstractly."""
from __future__ import annotations
import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import jax
import jax.numpy as jnp
from . import graph as G
REPO = os.environ.get("XV_REPO", "/repo")
if os.environ.get("XV_BACKEND"):        # lower as on this platform (nothing is compiled or run)
    jax.default_backend = lambda: os.environ["XV_BACKEND"]
sys.path.insert(0, REPO)
import xtructure
assert os.path.realpath(xtructure.__file__).startswith(os.path.realpath(REPO) + "/"), (xtructure.__file__, REPO)
from .interp import Interp, Endless, src_array, lift_arr, isobj, loc, stack_of, rel


class TraceError(Exception):
    """the repository function could not be lowered to IR for a well-typed input"""
    def __init__(self, exc, where):
        self.exc, self.where = exc, where
        super().__init__(f"{type(exc).__name__}: {exc}")


def repo_frame(exc):
    """innermost repository frame of an exception"""
    tb, best = exc.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/xtructure/" in fn and "/verif/" not in fn:
            best = (rel(fn), tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return best or ("?", 0, "?")


def spec(tree):
    """pytree of ShapeDtypeStruct (abstract value without data)"""
    return jax.tree_util.tree_map(lambda x: jax.ShapeDtypeStruct(jnp.shape(x), jnp.result_type(x)), tree)


def abstract(fn, *a, **k):
    """abstract result (shapes/dtypes only) of a repository constructor"""
    try:
        return jax.eval_shape(lambda: fn(*a, **k))
    except Exception as e:
        raise TraceError(e, repo_frame(e)) from e


def sds(shape, dtype):
    return jax.ShapeDtypeStruct(tuple(shape), np.dtype(dtype))


def pathstr(path):
    out = []
    for k in path:
        for a in ("key", "name", "idx"):
            if hasattr(k, a):
                out.append(str(getattr(k, a)))
                break
        else:
            out.append(str(k))
    return ".".join(out)


def leaf_paths(tree):
    return [(pathstr(p), l) for p, l in jax.tree_util.tree_flatten_with_path(tree)[0]]


class Result:
    pass


def lower(fn, args):
    try:
        closed, oshape = jax.make_jaxpr(fn, return_shape=True)(*args)
    except Exception as e:
        raise TraceError(e, repo_frame(e)) from e
    return closed, oshape


class Prog:
    """a lowered program that can be interpreted under several partitions"""
    def __init__(self, fn, args, names=None):
        self.names = names or [f"a{i}" for i in range(len(args))]
        self.closed, self.oshape = lower(fn, args)
        self.leaves = []
        for nm, a in zip(self.names, args):
            for p, l in leaf_paths(a):
                self.leaves.append((nm + ("." + p if p else ""), l))

    def run(self, fixed=None, ranges=None, interp=None, inputs=None):
        ins = []
        R = Result()
        R.ins = {}
        for nm, l in self.leaves:
            if fixed and nm in fixed:
                v = np.asarray(fixed[nm]).astype(l.dtype)
                assert v.shape == tuple(l.shape), (nm, v.shape, l.shape)
            elif inputs and nm in inputs:
                v = inputs[nm]
                if isinstance(v, G.Node):
                    v, n0 = np.empty((), dtype=object), v
                    v[()] = n0
                assert v.shape == tuple(l.shape), (nm, v.shape, l.shape)
            else:
                v = src_array(nm, tuple(l.shape), l.dtype, (ranges or {}).get(nm))
            R.ins[nm] = v
            ins.append(v)
        I = interp or Interp()
        outs = I.run(self.closed, ins)
        flat, td = jax.tree_util.tree_flatten(self.oshape)
        R.flat = outs
        R.out = jax.tree_util.tree_unflatten(td, [Box(o, s.dtype) for o, s in zip(outs, flat)])
        R.I, R.closed, R.oshape = I, self.closed, self.oshape
        R.outs = {p: (o, s) for (p, s), o in zip(leaf_paths(self.oshape), outs)}
        return R


def analyze(fn, args, names=None, fixed=None, ranges=None, interp=None, inputs=None):
    """lower `fn` for abstract `args` and interpret.  `fixed`: leaf name -> known value (control-state partition);
    `inputs`: leaf name -> object array of nodes.  Returns Result with .out (pytree of arrays), .ins (name->array), .I"""
    return Prog(fn, args, names).run(fixed, ranges, interp, inputs)


class Box:
    """opaque leaf holder so that pytrees of abstract arrays can be rebuilt without conversion"""
    __slots__ = ("v", "dtype")

    def __init__(self, v, dtype):
        self.v, self.dtype = v, dtype

    @property
    def shape(self):
        return tuple(self.v.shape)

    @property
    def ndim(self):
        return self.v.ndim
