"""Scenario generators for the numeric families."""
import random, struct


def hx(x): return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]
def unhx(s): return struct.unpack(">d", struct.pack(">Q", int(s, 16)))[0]


def interval(rng):
    r = rng.random()
    if r < .25:                                        # a cell of a refined parametric range
        d = rng.randint(0, 12)
        k = rng.randrange(1 << d)
        return [-1 + 2.0 * k / (1 << d), -1 + 2.0 * (k + 1) / (1 << d)]
    if r < .5:
        a = rng.uniform(-1, 1); b = rng.uniform(-1, 1)
        return [min(a, b), max(a, b)]
    if r < .75:
        a = rng.uniform(-100, 100)
        return [a, a + rng.choice([1e-6, .1, 1, 37.5])]
    a = rng.choice([-3.0, 0.0, 1.5, -0.25])
    return [a, a + rng.choice([0.5, 1.0, 2.0, 8.0])]


def rules(rng, ns):
    out = []
    for n in ns:
        ev = []
        for ep in (False, True):
            ev.append({"f": "rule", "n": n, "ep": ep, "ranges": [[hx(a), hx(b)] for a, b in [interval(rng) for _ in range(3)]]})
        out.append({"ev": ev})
    return out


def sums(rng, count):
    out = []
    for _ in range(count):
        nu, nv = rng.randint(2, 9), rng.randint(2, 9)
        out.append({"ev": [{"f": "sum", "u": [rng.randint(-9, 9) for _ in range(nu)], "v": [rng.randint(-9, 9) for _ in range(nv)],
                            "g": [[rng.randint(-999, 999) for _ in range(nv)] for _ in range(nu)]}]})
    return out


def sumx(rng, count):
    out = []
    for i in range(count):
        n = [rng.choice([1, 2, 3, 4, 5, 8, 13, 20]), rng.choice([1, 2, 3, 4, 5, 8, 13, 20])]
        # the highest degree each rule must integrate exactly, or any lower one
        d = [2 * n[c] - 1 - rng.choice([0, 0, 1, rng.randrange(2 * n[c])]) for c in (0, 1)]
        d = [max(0, x) for x in d]
        box = []
        for _ in (0, 1):
            a = rng.uniform(-1.2, 1.2)
            box += [a, a + rng.choice([.125, .5, 1, 1.9])]
        if rng.random() < .3: box = [-1.0, 1.0, -1.0, 1.0]
        out.append({"ev": [{"f": "sumx", "n": n, "ep": bool(i % 2), "r": [hx(x) for x in box], "d": d}]})
    return out


def para_points(rng, n):
    pool = [-1.0, 1.0, 0.0, -0.0, 0.5, -0.5, 1e-9, -1e-300, 1 - 2.0 ** -53]
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(rng.choice(pool) if r < .3 else rng.randint(-1024, 1024) / 1024 if r < .5 else rng.uniform(-1, 1))
    return out


def shapes(rng, orders, npts):
    out = []
    for n in orders:
        for d2 in (False, True):
            out.append({"ev": [{"f": "shape", "n": n, "p": [hx(x) for x in para_points(rng, npts)], "d2": d2}]})
    return out


# ------------------------------------------------------------------ numeric views of mesh states

from . import gen_mesh as g


def solid(rng, scn):
    """material constants that are numbers one can divide by"""
    if "mats" in scn:
        pick = lambda: rng.choice([8, 8, 1, 2, 3, 16, 20, 40, 77, -4, -24])
        scn["mats"] = [[pick(), rng.randint(-20, 20), pick(), rng.randint(-20, 20)] for _ in scn["cells"]]
    return scn


def grown(rng, nops, depth=6, kind=None, cap=14, chain=False, top=0, unit=None):
    """a refined mesh: scenario without views, and the Sim of its final state"""
    scn = solid(rng, g.base(rng, kind, depth, unit))
    sim = g.Sim(scn["cells"], float(scn["unit"]))
    ops = []
    k = rng.choice(sorted(sim.leaf))
    for _ in range(nops):
        if len(sim.leaf) > cap: break
        if chain:
            toks = [t for t in g.TOKS if sim.elig(k) and sim.feas(k, t)]
            if not toks: break
            t = rng.choice(toks)
            ops.append({"op": "hx", "items": [[k, t]]})
            sim.ref(k, t)
            below = sorted(x for x in sim.leaf if x.startswith(k + "."))
            k = rng.choice(below)
        else:
            it = g.shrink(sim, g.h_items(rng, sim, rng.choice([1, 1, 2])))
            if not it: continue
            sim.batch(it)
            ops.append({"op": "hx", "items": it})
        if top and rng.random() < .4: ops.append(g.small_p_op(rng, sim, top))
    if top and rng.random() < .8: ops.append(g.small_p_op(rng, sim, top) if rng.random() < .75 else g.level_orders(rng, sim, top))
    scn.update({"ops": ops, "dump": "last"})
    return scn, sim


def spine(rng, depth, cap=26, top=0):
    """a mesh refined again and again at one place, mostly at a fixed corner of the cell before"""
    kind = rng.choice(["unit", "pair", "col", "quad", "ell", "diag"])
    scn = solid(rng, g.base(rng, kind, depth, rng.choice([1.0, 1.0 / 3, 100.0, .04]) / (1 << depth)))
    sim = g.Sim(scn["cells"], float(scn["unit"]))
    ops, k = [], rng.choice(sorted(sim.leaf))
    side, stay = rng.randrange(4), rng.choice([.6, .9, 1])
    toks = rng.choice([["T", "U", "V"], ["U", "V"], ["U"], ["V"], list(g.TOKS)])
    for _ in range(2 * depth):
        if len(sim.leaf) > cap: break
        good = [t for t in toks if sim.elig(k) and sim.feas(k, t)] or [t for t in g.TOKS if sim.elig(k) and sim.feas(k, t)]
        if not good: break
        t = rng.choice(good)
        ops.append({"op": "hx", "items": [[k, t]]})
        sim.ref(k, t)
        below = sorted(x for x in sim.leaf if x.startswith(k + "."))
        x0, y0, x1, y1 = (f([sim.rect[x][c] for x in below]) for f, c in ((min, 0), (min, 1), (max, 2), (max, 3)))
        want = [(x0, y0), (x1, y0), (x0, y1), (x1, y1)][side]
        at = [x for x in below if want[0] in (sim.rect[x][0], sim.rect[x][2]) and want[1] in (sim.rect[x][1], sim.rect[x][3])]
        k = at[0] if rng.random() < stay else rng.choice(below)
    if top: ops.append(g.small_p_op(rng, sim, min(top, 3)))
    scn.update({"ops": ops, "dump": "last"})
    return scn, sim


def with_spine(rng, share, **kw):
    if rng.random() < share: return spine(rng, rng.choice([10, 12, 14, 16]), top=kw.get("top", 0))
    return grown(rng, **kw)


def cell_pair(rng, sim, same=.3):
    """(cell, descendant or itself)"""
    keys = sorted(sim.rect)
    y = rng.choice(keys if rng.random() < .5 else [k for k in keys if k.count(".") >= max(0, max(x.count(".") for x in keys) - 1)])
    if rng.random() < same: return y, y
    parts = y.split(".")
    return ".".join(parts[:rng.randint(1, len(parts))]), y


def basis_scns(rng, count):
    out = []
    for i in range(count):
        scn, sim = with_spine(rng, .12, nops=rng.choice([0, 1, 2, 3, 5, 8]), depth=9, chain=rng.random() < .6)
        reqs = []
        for _ in range(6):
            x, y = cell_pair(rng, sim)
            if x == y and rng.random() < .5: y = ""
            n = [rng.randint(1, 4), rng.randint(1, 4)]
            o = [rng.choice([1, 2, 3, 5, 9, 20]), rng.choice([1, 2, 3, 5, 9, 20])]
            at = [[rng.randint(0, o[0]), rng.randint(0, o[1]), rng.randrange(n[0]), rng.randrange(n[1])] for _ in range(6)]
            ps = [1.0, 1.0] if rng.random() < .3 else [rng.choice([.5, .25, 1, 2, .0625, 3]) for _ in (0, 1)]
            reqs.append({"x": x, "y": y, "pu": [hx(v) for v in para_points(rng, n[0])], "pv": [hx(v) for v in para_points(rng, n[1])],
                         "ord": o, "d2": rng.random() < .5, "ps": [hx(v) for v in ps], "at": at})
        scn.update({"views": "b", "num": {"b": reqs}})
        out.append(scn)
    return out


def integral_scns(rng, count, top=20, parts=False):
    out = []
    for i in range(count):
        scn, sim = with_spine(rng, .12, nops=rng.choice([0, 1, 2, 3, 5, 7]), depth=8, chain=rng.random() < .6)
        reqs = []
        for _ in range(4):
            x, y = cell_pair(rng, sim)
            o = [rng.choice([1, 2, 3, 4, 6, 10, top]), rng.choice([1, 2, 3, 4, 6, 10, top])]
            n = [o[c] + 1 + rng.choice([0, 0, 1, 3]) for c in (0, 1)]
            fs = []
            for _ in range(12):
                f = []
                for _ in (0, 1):
                    d = rng.choice("UV")
                    f += [d] + [rng.choice([0, 1, o[c], max(0, o[c] - 1), rng.randint(0, o[c])]) for c in (0, 1)]
                fs.append(f)
            reqs.append({"x": x, "y": y, "ord": o, "n": n, "f": fs, "parts": parts})
        scn.update({"views": "i", "num": {"i": reqs}})
        out.append(scn)
    return out


def asm_req(rng, n=None, threads=0, setcc=""):
    return {"n": n or [], "cc": "HCurl", "setcc": setcc, "threads": threads}


def asm_scns(rng, count, letter="g", cap=10, top=3, many=True):
    out = []
    for i in range(count):
        if rng.random() < .1: scn, sim = grown(rng, 0)                    # often no degree of freedom at all
        else: scn, sim = with_spine(rng, .06, nops=rng.choice([1, 2, 3, 4, 6]), depth=7, cap=cap, chain=rng.random() < .35, top=top)
        reqs = []
        lo = top + 1 if letter == "m" else 4
        nq = rng.choice([None, [max(4, lo), max(4, lo)], [rng.randint(max(4, lo), 9), rng.randint(max(4, lo), 12)]])
        reqs.append(asm_req(rng, nq, rng.choice([0, 0, 1, 2, 3])))
        if many and rng.random() < .35:
            reqs.append(asm_req(rng, rng.choice([[3, 8], [8, 3], [0, 4], [4, 0], [1, 1]])))
        if many and rng.random() < .1: reqs.append(asm_req(rng, None, 0, "HDiv"))
        scn.update({"views": letter, "num": {letter: reqs}})
        out.append(scn)
    return out


def crowded(rng):
    """an element with very many functions, and an element with very many descendants"""
    scn, sim = grown(rng, 0, kind="unit")
    scn.update({"ops": [{"op": "sg", "o": rng.choice([[6, 6], [7, 6], [20, 3], [4, 9]])}], "views": "g", "num": {"g": [asm_req(rng, [4, 4])]}})
    out = [scn]
    for kind in ("pair", "col"):
        scn, sim = grown(rng, 0, kind=kind, depth=7)
        ops, k = [], rng.choice(sorted(sim.rect))
        while len(sim.rect) < 90:
            ks = [x for x in sorted(sim.leaf) if x.startswith(k)]
            it = [[x, "T"] for x in rng.sample(ks, min(len(ks), 8))]
            sim.batch(it); ops.append({"op": "hx", "items": it})
        scn.update({"ops": ops, "views": "g", "num": {"g": [asm_req(rng, [4, 5])]}, "dump": "last"})
        out.append(scn)
    return out


def default_grids(rng, count):
    """few functions of very high order in one direction, assembled with the default quadrature grid"""
    out = []
    for i in range(count):
        scn, sim = grown(rng, rng.choice([0, 0, 1, 2]), kind=rng.choice(["unit", "single", "pair", "col"]), cap=3)
        hi = rng.choice([5, 7, 9, 10, 13, 16, 17, 19, 20])
        o = rng.choice([[hi, 1], [1, hi], [hi, 2], [2, hi]])
        scn["ops"].append({"op": "sg", "o": o} if len(sim.rect) == 1 or hi < 8 else {"op": "sx", "items": [[rng.choice(sorted(sim.rect))] + o]})
        scn.update({"views": "m", "num": {"m": [asm_req(rng)]}})
        out.append(scn)
    return out


def trace_scns(rng, count, cap=14, top=4):
    out = []
    for i in range(count):
        scn, sim = with_spine(rng, .1, nops=rng.choice([1, 2, 3, 4, 6, 8]), depth=8, cap=cap, chain=rng.random() < .3, top=top if rng.random() < .8 else 0)
        pos = sorted(rng.uniform(.02, .98) for _ in range(top + 2))
        scn.update({"views": "t", "num": {"t": {"s": [hx(p) for p in pos], "cc": "HCurl", "setcc": ""}}})
        out.append(scn)
    return out


def field_events(rng, n):
    out, names = [], []
    def coefs():
        r = rng.random()
        if r < .2: return [0] * rng.randint(0, 9) + [8] + [0] * rng.randint(0, 9)
        return [rng.randint(-40, 40) for _ in range(rng.choice([1, 3, 7, 11]))]
    for _ in range(n):
        r = rng.random()
        if not names or r < .3:
            to = rng.choice(["a", "b", "E", "a", "b", "E", "a_x", "E_", "_x"])
            out.append({"f": "xy", "to": to, "c": coefs(), "extra": rng.choice([0] * 8 + [1, -1])})
            if out[-1]["extra"] == 0: names += [to + "_x", to + "_y"]
        elif r < .55:
            a = rng.choice(names) if rng.random() < .88 else rng.choice(["nope", "a", ""])
            to = rng.choice(["q1", "q2", "q3", "a", "a_abs", "E_x2", "b_x_y", "A_x"] + names)
            out.append({"f": "map", "a": a, "to": to, "op": rng.choice(["abs", "neg", "sq", "twice", "inc", "tiny"])})
            if a in names: names.append(to)
        elif r < .8:
            a = rng.choice(names) if rng.random() < .9 else "nope"
            b = rng.choice(names) if rng.random() < .9 else "nope"
            to = rng.choice(["q1", "q2", "q3", "a", "a_abs", "E_x2", "b_x_y", "A_x"] + names)
            out.append({"f": "two", "a": a, "b": b, "to": to, "op": rng.choice(["add", "sub", "mul", "left", "right", "mix"])})
            if a in names and b in names: names.append(to)
        elif r < .9 and out[-1]["f"] != "all":
            out.append({"f": "all"})
        else:
            ns = sorted(set(names))
            pick = rng.sample(ns, rng.randint(0, min(3, len(ns))))
            if rng.random() < .2: pick.append("nope")
            out.append({"f": "some", "names": pick})
    out.append({"f": "all"})
    return out


def field_scns(rng, count, events, cap=8, top=3):
    out = []
    for i in range(count):
        scn, sim = with_spine(rng, .04, nops=rng.choice([0, 1, 2, 3, 5]), depth=7, cap=cap, chain=rng.random() < .4, top=top)
        den = rng.choice([[2, 2], [3, 3], [2, 4], [4, 2], [3, 5], [5, 2], [4, 3]])
        reqs = [{"den": den, "cc": "HCurl", "setcc": "", "do": field_events(rng, events) if events else
                 [{"f": "xy", "to": "E", "c": [rng.randint(-40, 40) for _ in range(rng.choice([1, 5, 7, 13]))], "extra": 0}, {"f": "all"}]}]
        scn.update({"views": "f", "num": {"f": reqs}})
        out.append(scn)
    return out


def field_crowds(rng):
    """fields of a cell with very many functions, on very many cells, and on dense grids"""
    out = []
    xy = lambda: {"f": "xy", "to": rng.choice("abE"), "c": [rng.randint(-40, 40) for _ in range(rng.choice([7, 13]))], "extra": 0}
    scn, sim = grown(rng, 0, kind="unit")
    scn["ops"].append({"op": "sg", "o": rng.choice([[18, 16], [16, 18], [17, 17]])})
    scn.update({"views": "f", "num": {"f": [{"den": rng.choice([[4, 3], [3, 4], [4, 4]]), "cc": "HCurl", "setcc": "", "do": [xy(), {"f": "all"}]}]}})
    out.append(scn)
    scn = g.base(rng, rng.choice(["unit", "pair", "quad"]), 6)
    sim = g.Sim(scn["cells"], float(scn["unit"]))
    ops = []
    while len(sim.leaf) < 257:
        it = [[k, rng.choice(["T", "T", "U", "V"]) if len(sim.leaf) > 60 else "T"] for k in sorted(sim.leaf)]
        ops.append({"op": "hx", "items": it}); sim.batch(it)
    two = lambda: {"f": "two", "a": "a_x", "b": rng.choice(["a_x", "a_y"]), "to": "q", "op": rng.choice(["add", "mul", "mix"])}
    scn.update({"ops": ops, "dump": "last", "views": "f", "num": {"f": [{"den": [2, 2], "cc": "HCurl", "setcc": "", "do": [{"f": "xy", "to": "a", "c": [3, -8, 5, 1, 2], "extra": 0}, two(), {"f": "all"}]}]}})
    out.append(scn)
    scn, sim = grown(rng, 2, depth=4, cap=4, top=2)
    scn.update({"views": "f", "num": {"f": [{"den": rng.choice([[19, 11], [10, 22], [40, 2], [2, 33]]), "cc": "HCurl", "setcc": "", "do": [xy(), {"f": "all"}]}]}})
    out.append(scn)
    return out


def near_cells(sim):
    """pairs of cells, on any levels, that share a side"""
    out = []
    ks = sorted(sim.rect)
    sides = {k: {(r[0], r[1], r[2], r[1]), (r[0], r[3], r[2], r[3]), (r[0], r[1], r[0], r[3]), (r[2], r[1], r[2], r[3])} for k, r in sim.rect.items()}
    for a in ks:
        for b in ks:
            if sides[a] & sides[b]: out.append((a, b))
    return out


def loc_scns(rng, count):
    """specifications of basis functions on cells that share a side (mostly), and of unrelated cells"""
    out = []
    for i in range(count):
        scn, sim = with_spine(rng, .05, nops=rng.choice([0, 1, 2, 3, 5]), depth=7, chain=rng.random() < .4)
        near = near_cells(sim)
        fun = lambda d: [d, rng.choice([0, 0, 1, 1, 2, 3, 5, 20]), rng.choice([0, 0, 1, 1, 2, 3, 5, 20])]
        reqs = []
        for _ in range(8):
            x, y = rng.choice(near) if rng.random() < .9 else (rng.choice(sorted(sim.rect)), rng.choice(sorted(sim.rect)))
            q = []
            for _ in range(16):
                d = rng.choice("UVW")
                p = fun(d)
                o = fun(d if rng.random() < .9 else rng.choice("UVW"))
                r = rng.random()
                if r < .3: o = [o[0], p[1], 1 - p[2] if p[2] < 2 else p[2]]
                elif r < .6: o = [o[0], 1 - p[1] if p[1] < 2 else p[1], p[2]]
                elif r < .7: o = [o[0], p[1], p[2]]
                q.append({"p": p, "o": o})
            reqs.append({"x": x, "y": y, "q": q})
        scn.update({"views": "l", "num": {"l": reqs}})
        out.append(scn)
    return out


# ------------------------------------------------------------------ assembled spaces as a whole

def positive(rng, scn, alike=False):
    if "mats" in scn:
        pick = lambda: rng.choice([8, 8, 8, 1, 2, 3, 16, 20, 40, 77])
        one = [pick(), 0, pick(), 0]
        scn["mats"] = [one if alike else [pick(), rng.randint(-20, 20), pick(), rng.randint(-20, 20)] for _ in scn["cells"]]
    return scn


def rough(sim):
    """about how many degrees of freedom there are"""
    return sum(2 * (sim.o[k][0] + .5) * (sim.o[k][1] + .5) for k in sim.leaf)


def raise_op(rng, sim, top, upward):
    """order increments; on leaves only (upward), or on any cell"""
    pool = sorted(sim.leaf) if upward else sorted(sim.rect)
    its = []
    for k in rng.sample(pool, min(len(pool), rng.choice([1, 2, 3]))):
        d = [rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2])]
        d = [min(d[c], max(0, top - sim.o[k][c])) for c in (0, 1)]
        its.append([k] + d)
        sim.o[k] = [sim.o[k][0] + d[0], sim.o[k][1] + d[1]]
    return {"op": "px", "items": its}


def space_scns(rng, count, size=70, top=4, nops=6, kinds=None, depth=6, chain=.25):
    out = []
    for _ in range(count):
        scn = positive(rng, g.base(rng, rng.choice(kinds) if kinds else rng.choice(["unit", "single", "pair", "col", "quad", "ell", "ring", "diag", "random"]), depth))
        sim = g.Sim(scn["cells"], float(scn["unit"]))
        upward, deep, ops = rng.random() < .9, rng.random() < chain, []
        start = [rng.randint(1, 3), rng.randint(1, 3)]
        if rng.random() < .7:
            ops.append({"op": "pg", "d": [start[0] - 1, start[1] - 1]})
            for k in sim.o: sim.o[k] = list(start)
        last = rng.choice(sorted(sim.leaf))
        for _ in range(rng.randint(2, nops)):
            if rough(sim) > size: break
            if rng.random() < .35: ops.append(raise_op(rng, sim, top, upward))
            else:
                if deep:
                    below = sorted(x for x in sim.leaf if x == last or x.startswith(last + "."))
                    last = rng.choice(below)
                    toks = [t for t in g.TOKS if sim.elig(last) and sim.feas(last, t)]
                    it = [[last, rng.choice(toks)]] if toks else []
                else: it = g.shrink(sim, g.h_items(rng, sim, rng.choice([1, 1, 2])))
                if not it: continue
                before = set(sim.rect)
                sim.batch(it)
                ops.append({"op": "hx", "items": it})
        req = asm_req(rng, [top + 3, top + 3], rng.choice([0, 0, 2]))
        req["sig"] = sorted(int(40 * 1000 ** rng.random()) for _ in range(5))
        scn.update({"ops": ops, "dump": "all", "views": "s", "num": {"s": [req]}})
        out.append(scn)
    return out


def cavity_scns(rng, count, size=110):
    out = []
    for _ in range(count):
        nx, ny = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)])
        depth = 6
        q = 1 << depth
        if (nx, ny) == (1, 1) and rng.random() < .4: scn = g.base(rng, "unit", depth)
        else:
            xs, ys = [rng.randint(-3, 3) * q], [rng.randint(-3, 3) * q]
            for _ in range(nx): xs.append(xs[-1] + q * rng.choice([1, 1, 2]))
            for _ in range(ny): ys.append(ys[-1] + q * rng.choice([1, 1, 2]))
            cells = [[xs[i], ys[j], xs[i + 1], ys[j + 1]] for i in range(nx) for j in range(ny)]
            rng.shuffle(cells)
            pts = sorted({(x, y) for r in cells for x in (r[0], r[2]) for y in (r[1], r[3])})
            rng.shuffle(pts)
            scn = positive(rng, {"src": "file", "unit": repr(rng.choice([1.0, .25, 3.7, 1 / 3]) / q), "cells": cells, "nodes": [list(p) for p in pts], "mats": cells}, True)
        sim = g.Sim(scn["cells"], float(scn["unit"]))
        lo = rng.choice([3, 3, 4, 5, 6])
        if nx * ny > 2: lo = min(lo, 4)
        start = [lo + rng.choice([0, 0, 1]), lo + rng.choice([0, 0, 1])]
        ops = [{"op": "pg", "d": [start[0] - 1, start[1] - 1]}]
        for k in sim.o: sim.o[k] = list(start)
        for _ in range(rng.randint(0, 3)):
            if rough(sim) > size: break
            if rng.random() < .3: ops.append(raise_op(rng, sim, start[0] + 1, True)); continue
            it = g.shrink(sim, g.h_items(rng, sim, 1))
            if not it: continue
            sim.batch(it)
            ops.append({"op": "hx", "items": it})
        scn.update({"ops": ops, "dump": "last", "views": "s", "num": {"s": [dict(asm_req(rng, [max(start) + 4] * 2), sig=[])]}})
        out.append(scn)
    return out
