"""C03 Priority queue conserves every key-value pair."""
from ..heapcheck import *
