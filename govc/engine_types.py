"""sets of visited map keys"""
import z3
from vals import *


class VisBase:
    """set of visited keys: None = empty, or a z3 array"""

    def __init__(self, arr):
        self.arr = arr

    def has(self, k):
        return FALSE if self.arr is None else z3.Select(self.arr, k)


class VisStore:
    def __init__(self, prev, more, key):
        self.prev, self.more, self.key = prev, more, key

    def has(self, k):
        return Or(And(self.more, eq(k, self.key)), self.prev.has(k))
