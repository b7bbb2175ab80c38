import math
from numpy import testing
float64 = float
float32 = float
inf = float('inf')
nan = float('nan')


def array(seq, dtype=None):
    return list(seq)


def isnan(x):
    return x != x


def sum(seq):
    tot = 0
    for x in seq:
        tot += x
    return tot


def ceil(x):
    return math.ceil(x)


def floor(x):
    return math.floor(x)
