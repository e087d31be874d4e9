"""C05 Priority queue counts what it holds; padding and capacity."""
from ..heapcheck import *
from ..heapcheck import run as _run


def run(ck):
    _run(ck)
    padding(ck)
    capacity(ck)
