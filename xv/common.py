"""Shared helpers of the checks."""
import numpy as np
from .trace import *
from .report import where_of
from . import graph as G
from .interp import Endless


def guard(ck, rule, inst, f):
    """abstract evaluation of a repository constructor; a rejection of a valid input is a violation"""
    try:
        return f()
    except TraceError as e:
        ck.crash(rule, inst, e)
        return None


def go(ck, rule, inst, fn, args, names, fixed=None, **kw):
    try:
        R = analyze(fn, args, names, fixed=fixed or {}, **kw)
    except TraceError as e:
        ck.crash(rule, inst, e)
        return None
    except Endless:
        raise
    except Exception as e:
        ck.undecided(inst, e)
        return None
    ck.saw(R.I)
    return R


def rejects(ck, rule, inst, fn, args, where, kinds=(Exception,)):
    """compile-fail witness: the program must fail to build"""
    try:
        lower(fn, args)
    except TraceError as e:
        return ck.ob(rule, inst, isinstance(e.exc, kinds), f"raises {type(e.exc).__name__}", where)
    return ck.ob(rule, inst, False, "the program builds", where)


def builds(ck, rule, inst, fn, args=()):
    try:
        lower(fn, args)
    except TraceError as e:
        if e.where[0] == "?":
            raise e.exc
        return ck.ob(rule, inst, False, f"does not build: {e}", e.where)
    return ck.ob(rule, inst, True)


def leaf_names(tree):
    return [p for p, _ in leaf_paths(tree)]
