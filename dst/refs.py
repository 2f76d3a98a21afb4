"""Small executable reference models. Each is written from the documented definition, as plainly as possible,
recomputing from the full list of values held."""
import math

import numpy as np

EPS = 1e-13


def median(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) / 2.0


def mean(v):
    return math.fsum(v) / len(v)


def var(v):
    m = mean(v)
    return math.fsum((x - m) ** 2 for x in v) / len(v)


def batch(kind, v):
    """The plain batch statistic of a list."""
    if kind == "AverageMeter":
        return mean(v)
    if kind == "CountMeter":
        return float(len(v))
    if kind == "MaxMeter":
        return max(v) if v else -math.inf
    if kind == "MinMeter":
        return min(v) if v else math.inf
    if kind == "MedianMeter":
        return median(v)
    if kind == "SumMeter":
        return math.fsum(v)
    if kind == "SumSquaresMeter":
        return math.fsum(x * x for x in v)
    if kind == "VarianceMeter":
        return var(v)
    raise KeyError(kind)


DEFINED_EMPTY = ("CountMeter", "SumMeter", "SumSquaresMeter", "MaxMeter", "MinMeter")


def tol(kind, M, n):
    """Rounding allowance after n incremental operations on values bounded by M."""
    n = n + 10
    if kind in ("SumMeter", "AverageMeter"):
        return EPS * n * M
    if kind in ("SumSquaresMeter", "VarianceMeter"):
        return EPS * n * M * M
    return EPS * M


def close(a, b, t):
    if a is None or a != a:
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= t


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))
