"""C04 Priority queue delivers the smallest keys first."""
from ..heapcheck import *
