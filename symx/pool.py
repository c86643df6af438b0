"""Seeded sample values of an input."""
import zlib

import numpy as np

INF = float('inf')


def pool_values(name, lo, hi, n, seed, pts=(), log=None):
    r = np.random.RandomState((zlib.crc32(name.encode()) ^ (seed * 7919)) & 0x7fffffff)
    a = -1e3 if lo == -INF else lo
    b = max(a + 2e3, 1e3) if hi == INF else hi
    if log is None:
        log = a > 0 and b / a > 30
    u = r.rand(n)
    if log and a > 0:
        x = np.exp(np.log(a) + (np.log(b) - np.log(a)) * u)
    elif log and a == 0:
        x = np.where(r.rand(n) < 0.15, 0.0, b * np.exp(-12 * u))
    else:
        x = a + (b - a) * u
    k = r.rand(n)
    x = np.where(k < 0.02, a, x)
    x = np.where((k > 0.02) & (k < 0.04), b, x)
    pts = [p for p in pts if a <= p <= b]
    if pts:
        c = r.rand(n) < 0.15
        x = np.where(c, np.array(pts, dtype=float)[r.randint(len(pts), size=n)], x)
    return np.clip(x, a, b)
