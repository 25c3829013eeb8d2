"""Scenarios for the geometric value types (C27)."""
import struct
from decimal import Decimal


def hexf(v):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]


def coord(rng, near=None):
    """a coordinate <<n, k, d>> = n + k * 1e-12 + d * 1e-15 and the nearest double"""
    if near is not None and rng.random() < .7:
        n, k, _ = near
        if rng.random() < .6: k += rng.choice([-2, -1, -1, 1, 1, 2, 1000])
    else:
        n, k = rng.choice([-30, -3, -2, -1, -1, 0, 0, 0, 1, 1, 2, 3, 30]), rng.choice([0, 0, 0, 1, -1, 2, -2, 7, 500, -500, 999999, -999999])
    d = 0 if rng.random() < .4 else rng.randint(-400, 400)
    return [n, k, d]


def value(rng, c):
    v = float(Decimal(c[0]) + Decimal(c[1]) * Decimal("1e-12") + Decimal(c[2]) * Decimal("1e-15"))
    return -0.0 if v == 0 and rng.random() < .5 else v


def num(rng):
    return rng.choice([-1, 1]) * rng.choice([0.125, 0.5, 1.0, 2.0, 3.0, rng.uniform(0.01, 9), rng.uniform(.5, 2), 1e-3, 700.5])


def scns(rng, n):
    ev = []
    for _ in range(n):
        p = [coord(rng), coord(rng)]
        q = [coord(rng, p[0]), coord(rng, p[1])]
        r = rng.random()
        if r < .2: q[rng.randrange(2)] = list(p[0]) if rng.random() < .5 else list(p[1])
        elif r < .4: q = [p[0][:2] + [rng.randint(-400, 400)], p[1][:2] + [rng.randint(-400, 400)]]
        ev.append({"f": "pt", "p": p, "q": q, "ph": [hexf(value(rng, c)) for c in p], "qh": [hexf(value(rng, c)) for c in q], "x": hexf(num(rng))})
        zero = lambda: 0.0 if rng.random() < .15 else num(rng)
        ev.append({"f": "v2", "a": [hexf(zero()), hexf(zero())], "b": [hexf(num(rng)), hexf(num(rng))], "x": hexf(num(rng))})
        m = [num(rng), zero(), zero(), num(rng)]
        if m[0] * m[3] - m[1] * m[2] == 0: m = [1.0, 2.0, 0.0, 4.0]
        ev.append({"f": "m2", "a": [hexf(x) for x in m], "b": [hexf(zero()) for _ in range(4)], "v": [hexf(zero()), hexf(zero())], "x": hexf(num(rng))})
    return [{"ev": ev[k:k + 90]} for k in range(0, len(ev), 90)]
