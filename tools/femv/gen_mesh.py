"""Scenario generators for the mesh family.  The Sim class is only used to aim requests at
interesting cells; it decides nothing (the TLA+ specification computes what must happen)."""
import math, random

CH = {"T": ["SW", "SE", "NW", "NE"], "U": ["W", "E"], "V": ["S", "N"]}
M_EDGE = 3.0518e-5
EXT = {"U0": ("U", ".W", "V"), "U1": ("U", ".E", "V"), "V0": ("V", ".S", "U"), "V1": ("V", ".N", "U")}
TOKS = ["T", "U", "V", "U0", "U1", "V0", "V1"]


def plus(a, b):
    if a == b: return a
    if a[0] == b[0] != "T" and (len(a) == 1 or len(b) == 1): return a if len(a) == 2 else b
    return "T"


def sub(loc, r):
    x0, y0, x1, y1 = r
    xm, ym = (x0 + x1) // 2, (y0 + y1) // 2
    if "W" in loc: x1 = xm
    if "E" in loc: x0 = xm
    if "S" in loc: y1 = ym
    if "N" in loc: y0 = ym
    return [x0, y0, x1, y1]


class Sim:
    def __init__(self, cells, unit):
        self.m = M_EDGE / unit
        self.rect = {"r%d" % i: list(c) for i, c in enumerate(cells)}
        self.leaf = set(self.rect)
        self.o = {k: [1, 1] for k in self.rect}

    def ok_parity(self, k, tok):
        """can the integer coordinates still represent this refinement?"""
        r = self.rect[k]
        w, h = r[2] - r[0], r[3] - r[1]
        return (w % 2 == 0 or tok in ("V",)) and (h % 2 == 0 or tok in ("U",))

    def one(self, k, kind):
        self.leaf.discard(k)
        for l in CH[kind]:
            self.rect[k + "." + l] = sub(l, self.rect[k])
            self.leaf.add(k + "." + l)
            self.o[k + "." + l] = list(self.o[k])

    def ref(self, k, tok):
        if tok in EXT:
            a, b, c = EXT[tok]
            self.one(k, a); self.one(k + b, c)
        else:
            self.one(k, tok)

    def elig(self, k):
        r = self.rect[k]
        return k in self.leaf and r[2] - r[0] > self.m and r[3] - r[1] > self.m

    def feas(self, k, tok):
        r = self.rect[k]
        w, h = r[2] - r[0], r[3] - r[1]
        if not self.ok_parity(k, tok): return False
        u, v = w / 2 >= self.m, h / 2 >= self.m
        if tok == "T": return u and v
        if tok == "U": return u
        if tok == "V": return v
        if tok[0] == "U": return u and v and w / 2 > self.m
        return u and v and h / 2 > self.m

    def batch(self, items):
        comb = {}
        for k, t in items:
            if k not in self.rect or t not in TOKS or not self.elig(k): return False
            comb[k] = plus(comb[k], t) if k in comb else t
        if not all(self.feas(k, t) for k, t in comb.items()): return False
        for k, t in comb.items(): self.ref(k, t)
        return True


def base(rng, kind=None, depth=6, unit=None):
    """a random base mesh: grid with random spacings, possibly holes; returns scenario fields"""
    kind = kind or rng.choice(["unit", "single", "pair", "col", "quad", "ell", "ring", "diag", "grid", "strip", "random"])
    q = 1 << depth
    if unit is None:
        unit = rng.choice([1.0 / q, 0.25 / q, 0.1 / q, 1.0 / 3 / q, 3.7 / q, 100.0 / q])
    if kind == "unit":
        return {"src": "unit", "unit": repr(2.0 / (2 * q)), "cells": [[-q, -q, q, q]]}
    shape = {"single": (1, 1), "pair": (2, 1), "col": (1, 2), "quad": (2, 2), "ell": (2, 2), "ring": (3, 3),
             "diag": (2, 2), "grid": (rng.randint(2, 3), rng.randint(2, 3)), "strip": (4, 1),
             "random": (rng.randint(1, 4), rng.randint(1, 3)),
             "large": rng.choice([(12, 10), (130, 1), (1, 140), (6, 23)])}[kind]
    nx, ny = shape
    cells = [(i, j) for i in range(nx) for j in range(ny)]
    if kind == "ell": cells.remove(rng.choice(cells))
    if kind == "large":
        for c in rng.sample(cells, rng.choice([0, 0, 5, 30])): cells.remove(c)
    if kind == "ring": cells.remove((1, 1))
    if kind == "diag": cells = rng.choice([[(0, 0), (1, 1)], [(1, 0), (0, 1)]])
    if kind == "random":
        keep = [c for c in cells if rng.random() < 0.75]
        cells = keep or cells[:1]
    xs, ys = [rng.randint(-3, 3) * q], [rng.randint(-3, 3) * q]
    long = rng.choice([3, 3, 3, 50]) if depth <= 8 and kind != "large" else 3      # now and then very slender cells
    for _ in range(nx): xs.append(xs[-1] + q * rng.choice([1, 1, 2, long]))
    for _ in range(ny): ys.append(ys[-1] + q * rng.choice([1, 1, 2, long]))
    rng.shuffle(cells)
    rects = [[xs[i], ys[j], xs[i + 1], ys[j + 1]] for i, j in cells]
    pts = sorted({(x, y) for r in rects for x in (r[0], r[2]) for y in (r[1], r[3])})
    if rng.random() < 0.3: pts.append((xs[-1] + 5 * q, ys[-1] + 7 * q))      # a node no cell uses
    rng.shuffle(pts)
    mats = [[rng.randint(-20, 40), rng.randint(-20, 20), rng.randint(-20, 40), rng.randint(-20, 20)] for _ in rects]
    return {"src": "file", "unit": repr(unit), "cells": rects, "nodes": [list(p) for p in pts], "mats": mats}


def deepest(sim):
    return max(sorted(sim.leaf), key=lambda k: k.count("."))


def pick_leaf(rng, sim):
    ls = sorted(sim.leaf)
    r = rng.random()
    if r < 0.25: return deepest(sim)
    if r < 0.4: return min(ls, key=lambda k: (k.count("."), k))
    return rng.choice(ls)


def h_items(rng, sim, n, toks=TOKS):
    out = []
    for _ in range(n):
        k = pick_leaf(rng, sim)
        good = [t for t in toks if sim.elig(k) and sim.feas(k, t)]
        if good: out.append([k, rng.choice(good)])
    return out


def shrink(sim, items):
    """drop items whose combination would not be representable in the scenario's integers"""
    comb = {}
    out = []
    for k, t in items:
        c = plus(comb[k], t) if k in comb else t
        if sim.feas(k, c):
            comb[k] = c
            out.append([k, t])
    return out


def h_op(rng, sim, forms=("hx", "hl", "hf", "hg")):
    form = rng.choice(forms)
    if form == "hg" and (len(sim.leaf) > 16 or not all(sim.ok_parity(k, "T") for k in sim.leaf)): form = "hx"
    if form == "hx":
        items = shrink(sim, h_items(rng, sim, rng.choice([1, 1, 2, 3, 5])))
        if not items: return None
        sim.batch(items)
        return {"op": "hx", "items": items}
    if form == "hf":
        items = shrink(sim, h_items(rng, sim, rng.choice([1, 2, 4])))
        items = list({k: [k, t] for k, t in items}.values())
        extra = [k for k in sim.rect if k not in sim.leaf]
        sel = list(items)
        if extra and rng.random() < 0.5:                        # refined cells must be skipped silently
            sel.append([rng.choice(extra), rng.choice(TOKS)])
        if not sel: return None
        sim.batch(items)
        rng.shuffle(sel)
        return {"op": "hf", "sel": sel}
    tok = rng.choice(TOKS)
    if form == "hl":
        ks = [k for k in sorted(sim.leaf) if sim.elig(k) and sim.feas(k, tok)]
        if not ks: return None
        ks = rng.sample(ks, min(len(ks), rng.choice([1, 2, 3, 6])))
        sim.batch([[k, tok] for k in ks])
        return {"op": "hl", "ids": ks, "tok": tok}
    ks = [[k, tok] for k in sorted(sim.leaf) if sim.elig(k)]
    if not all(sim.feas(k, tok) for k, _ in ks): return None
    sim.batch(ks)
    return {"op": "hg", "tok": tok}


def bad_h_op(rng, sim):
    """requests that must be rejected as a whole"""
    good = shrink(sim, h_items(rng, sim, rng.choice([0, 1, 2, 3])))
    refined = [k for k in sim.rect if k not in sim.leaf]
    kinds = ["missing", "child2", "max"] + (["refined"] * 2 if refined else []) + (["dup"] if good else [])
    kind = rng.choice(kinds)
    if kind == "dup" and rng.random() < .5:
        ids = far_twins(rng, sorted(sim.leaf))
        return {"op": "hl", "ids": ids, "tok": rng.choice(TOKS)}
    if kind == "dup":
        k = good[0][0]
        ids = [k] + [g[0] for g in good[1:] if g[0] != k] + [k]
        return {"op": "hl", "ids": ids, "tok": rng.choice(TOKS)}
    badkey = {"missing": "!%d" % rng.choice([0, 1, 3]), "max": "!max", "refined": rng.choice(refined) if refined else "!0",
              "child2": None}[kind]
    if kind == "child2":
        k = rng.choice(sorted(sim.leaf))
        bad = [k, rng.choice(["U2", "V2", "U9"])]
        if rng.random() < 0.4:      # combined with another token for the same cell
            good.append([k, rng.choice(["T", "U", "V", "U0"])])
        if rng.random() < 0.3 and not good:
            return {"op": "hl", "ids": [k], "tok": bad[1]}
    else:
        bad = [badkey, rng.choice(TOKS)]
        if rng.random() < 0.3:
            ids = [g[0] for g in good if True]
            ids = list(dict.fromkeys(ids)) + [badkey]
            rng.shuffle(ids)
            return {"op": "hl", "ids": ids, "tok": rng.choice(["T", "U", "V"])}
    items = good + [bad]
    rng.shuffle(items)
    return {"op": "hx", "items": items}


def far_twins(rng, keys):
    """a list, as long as can be had, with one cell twice, usually far apart"""
    ids = rng.sample(keys, min(len(keys), rng.choice([2, 6, 40])))
    rng.shuffle(ids)
    ids.insert(rng.choice([0, len(ids), rng.randint(0, len(ids))]), rng.choice([ids[0], ids[-1], rng.choice(ids)]))
    return ids


def p_deltas(rng):
    return [rng.choice([0, 1, 2, 3, 5, 19, 20, -1, -2, -19, 127, -128, rng.randint(-128, 127)]) for _ in range(2)]


def p_op(rng, sim, wild=0.3):
    keys = sorted(sim.rect)
    ks = [rng.choice(keys) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    form = rng.choice(["px", "px", "pl", "pf", "pb", "pg", "sx", "sl", "sf", "sg"])

    def d(k):
        if rng.random() < wild: return p_deltas(rng)
        o = sim.o[k]
        return [rng.randint(max(1 - o[c], -3), min(20 - o[c], 3)) for c in (0, 1)]

    def order():
        return [rng.choice([1, 2, 3, 4, 20, 19, rng.randint(1, 20)]) for _ in range(2)]
    if rng.random() < wild * 0.3 and form in ("px", "pl", "sx", "sl"):
        ks[rng.randrange(len(ks))] = rng.choice(["!0", "!1", "!max"])
    if form == "px":
        items = []
        for k in ks:
            for _ in range(rng.choice([1, 1, 2, 3])):
                items.append([k] + (d(k) if k in sim.o else p_deltas(rng)))
        rng.shuffle(items)
        tot = {}
        for k, a, b in items:
            t = tot.setdefault(k, [0, 0]); t[0] += a; t[1] += b
        if all(k in sim.o and all(1 <= sim.o[k][c] + t[c] <= 20 for c in (0, 1)) for k, t in tot.items()):
            for k, t in tot.items(): sim.o[k] = [sim.o[k][0] + t[0], sim.o[k][1] + t[1]]
        return {"op": "px", "items": items}
    if form in ("pf", "pb"):
        sel = {k: d(k) for k in ks}
        return {"op": form, "sel": [[k] + v for k, v in sel.items()]}
    if form in ("pl", "sl") and rng.random() < .15: ks = far_twins(rng, keys)
    elif form == "pl":
        if rng.random() < 0.8: ks = list(dict.fromkeys(ks))
    if form == "pl":
        return {"op": "pl", "ids": ks, "d": d(ks[0]) if ks[0] in sim.o else p_deltas(rng)}
    if form == "pg":
        return {"op": "pg", "d": p_deltas(rng) if rng.random() < 0.5 else [rng.randint(-2, 2), rng.randint(-2, 2)]}
    o = order()
    if rng.random() < wild * 0.3: o[rng.randrange(2)] = rng.choice([0, 21, 255])
    if form == "sl":
        if len(ks) < 5 and rng.random() < 0.8: ks = list(dict.fromkeys(ks))
        return {"op": "sl", "ids": ks, "o": o}
    if form == "sg":
        return {"op": "sg", "o": o}
    if form == "sf":
        return {"op": "sf", "sel": [[k] + order() for k in dict.fromkeys(ks)]}
    if rng.random() < 0.8: ks = list(dict.fromkeys(ks))
    items = [[k] + order() for k in ks]
    if rng.random() < wild * 0.3: items[rng.randrange(len(items))][1 + rng.randrange(2)] = rng.choice([0, 21, 255])
    return {"op": "sx", "items": items}


def history(rng, nops, views, mix=(("h", 1.0),), kind=None, depth=6, cap=60, unit=None, dump="all", small_p=False):
    scn = base(rng, kind, depth, unit)
    sim = Sim(scn["cells"], float(scn["unit"]))
    ops = []
    names = [a for a, _ in mix]
    weights = [b for _, b in mix]
    for _ in range(nops * 3):
        if len(ops) >= nops or len(sim.leaf) > cap: break
        what = rng.choices(names, weights)[0]
        if what == "h": op = h_op(rng, sim)
        elif what == "bad": op = bad_h_op(rng, sim)
        elif what == "p": op = p_op(rng, sim)
        elif what == "sp": op = small_p_op(rng, sim)
        elif what == "fork": op = {"op": "fork"}
        elif what == "look": op = {"op": "look", "v": rng.choice(["D", "J", "A"])}
        elif what == "swap": op = {"op": "swap"} if any(o["op"] == "fork" for o in ops) else {"op": "fork"}
        if op is None: continue
        ops.append(op)
        if what == "swap" and op["op"] == "swap":
            # sim no longer knows the tree: stop refining, the rest only looks
            break
    scn.update({"ops": ops, "views": views, "dump": dump})
    return scn


def small_p_op(rng, sim, top=5):
    """admissible order changes that keep orders small (for DoF views)"""
    keys = sorted(sim.rect)
    ks = rng.sample(keys, min(len(keys), rng.choice([1, 2, 3])))
    items = [[k, rng.randint(1, top), rng.randint(1, top)] for k in ks]
    for k, a, b in items: sim.o[k] = [a, b]
    return {"op": "sx", "items": items}


def level_orders(rng, sim, top):
    """orders by refinement level, or apart for refined and unrefined cells: ancestors may outrank every leaf"""
    o = lambda: [rng.randint(1, top), rng.randint(1, top)]
    by = rng.choice([lambda k: k.count("."), lambda k: k in sim.leaf, lambda k: k in sim.leaf, lambda k: k.count(".") % 2])
    table = {}
    if rng.random() < .5: table = {True: [1, 1], False: [rng.randint(1, top), top]}
    items = [[k] + table.setdefault(by(k), o()) for k in sorted(sim.rect)]
    for k, a, b in items: sim.o[k] = [a, b]
    return {"op": "sx", "items": items}


def deep(rng, views, dump="last", cells=None, levels=9):
    """refine towards a point / an edge: long chains of levels with few cells"""
    depth = levels + 1
    scn = base(rng, rng.choice(["unit", "pair", "quad", "single"]), depth, unit=400.0 / (1 << depth) if levels > 14 else None)
    sim = Sim(scn["cells"], float(scn["unit"]))
    ops = []
    k = rng.choice(sorted(sim.leaf))
    side = rng.choice(["corner", "random", "edge"])
    only = rng.choice([None, None, "U", "V", "UV"])          # or thinner and thinner stripes
    for _ in range(levels if only is None else 2 * levels):
        toks = [t for t in TOKS if sim.elig(k) and sim.feas(k, t)]
        if not toks: break
        thin = [t for t in toks if only and t in only]
        if thin: t = rng.choice(thin)
        elif only in ("U", "V"): break
        else: t = rng.choice(["T", "T"] + toks) if "T" in toks else rng.choice(toks)
        ops.append({"op": "hx", "items": [[k, t]]})
        sim.ref(k, t)
        below = sorted(x for x in sim.leaf if x.startswith(k + "."))
        if side == "corner": k = min(below, key=lambda x: (sim.rect[x][0] + sim.rect[x][1], x))
        elif side == "edge": k = min(below, key=lambda x: (sim.rect[x][0], rng.random()))
        else: k = rng.choice(below)
        if len(k.split(".")) > 22: break
    scn.update({"ops": ops, "views": views, "dump": dump})
    return scn


def large(rng, views, dump="last"):
    """meshes with more than a hundred cells: many elements, or uniform refinement several times over"""
    if rng.random() < 0.5:
        scn = base(rng, "large", 3)
        sim = Sim(scn["cells"], float(scn["unit"]))
        ops = [{"op": "hx", "items": h_items(rng, sim, 1)}] if rng.random() < .3 else []
        if ops: sim.batch(ops[0]["items"])
        for _ in range(rng.choice([0, 1, 2])):
            it = shrink(sim, h_items(rng, sim, rng.choice([2, 8, 20])))
            if it and sim.batch(it): ops.append({"op": "hx", "items": it})
    else:
        scn = base(rng, rng.choice(["unit", "pair", "single", "diag"]), 7)
        sim = Sim(scn["cells"], float(scn["unit"]))
        ops = []
        while True:
            tok = rng.choice(["T", "T", "T", "U", "V", "U0", "V1"])
            grow = {"T": 4, "U": 2, "V": 2}.get(tok, 3)
            ks = [[k, tok] for k in sorted(sim.leaf) if sim.elig(k)]
            if len(sim.leaf) * grow > 150 or not all(sim.feas(k, tok) for k, _ in ks): break
            sim.batch(ks)
            ops.append({"op": "hg", "tok": tok})
        it = shrink(sim, h_items(rng, sim, rng.choice([1, 4, 9])))
        if it and sim.batch(it): ops.append({"op": "hx", "items": it})
    scn.update({"ops": ops, "views": views, "dump": dump})
    return scn


def bulk(rng, views, dump="last"):
    """requests on very many cells at once, in every form"""
    scn = base(rng, rng.choice(["large", "quad", "unit"]), 7)
    sim = Sim(scn["cells"], float(scn["unit"]))
    ops = []
    def h(op, items): ops.append(op); sim.batch(items)
    while len(sim.leaf) < 24: h({"op": "hg", "tok": "T"}, [[k, "T"] for k in sorted(sim.leaf)])
    for _ in range(rng.choice([1, 1, 2])):
        ks = [k for k in sorted(sim.leaf) if sim.elig(k) and sim.feas(k, "T") and sim.feas(k, "U0") and sim.feas(k, "V0")]
        if len(sim.leaf) > 90 or not ks: break
        rng.shuffle(ks)
        ks = ks[:rng.choice([30, 45, len(ks)])]
        r, tok = rng.random(), rng.choice(TOKS + ["U0", "U1", "V0", "V1"])
        if r < .35: h({"op": "hl", "ids": ks, "tok": tok}, [[k, tok] for k in ks])
        elif r < .5: h({"op": "hg", "tok": tok}, [[k, tok] for k in sorted(sim.leaf)])
        else:
            few = rng.random() < .5
            it = [[k, rng.choice(["U0", "V1"] if few else TOKS)] for k in ks]
            h({"op": "hf", "sel": it} if r < .75 else {"op": "hx", "items": it}, it)
    keys = sorted(sim.rect)
    ps = lambda: [[k, rng.randint(1, 3), rng.randint(1, 3)] for k in keys]
    ops.insert(rng.randint(0, len(ops)), {"op": "sg", "o": [rng.randint(1, 2), 1]})
    ops.append(rng.choice([lambda: {"op": "sx", "items": ps()}, lambda: {"op": "sf", "sel": ps()}, lambda: {"op": "sl", "ids": rng.sample(keys, len(keys)), "o": [2, 1]},
                           lambda: {"op": "pl", "ids": rng.sample(keys, len(keys)), "d": [1, 2]}, lambda: {"op": "px", "items": ps()}])())
    scn.update({"ops": ops, "views": views, "dump": dump})
    return scn


def min_edge(rng, views, exact=False):
    """tiny cells, so that the minimum edge length is met after a few refinements"""
    if exact:
        unit = M_EDGE
        # lengths of exactly the minimum: only multiples of M by powers of two are exact in floating point
        w, h = rng.choice([1, 2, 2, 2]), rng.choice([1, 2, 2, 2])
        cells, nodes = [[0, 0, w, h]], [[0, 0], [w, 0], [0, h], [w, h]]
        if rng.random() < 0.5:
            cells.append([w, 0, 2 * w, h]); nodes += [[2 * w, 0], [2 * w, h]]
        scn = {"src": "file", "unit": repr(unit), "cells": cells, "nodes": nodes}
    else:
        while True:
            depth = 4
            scn = base(rng, rng.choice(["single", "pair", "quad", "ell", "col"]), depth,
                       unit=M_EDGE / rng.choice([1.3, 1.9, 2.7, 3.3, 5.1, 6.7, 7.3]) )
            q = M_EDGE / float(scn["unit"])
            if all(abs(q * f - round(q * f)) > 1e-4 for f in (1, 2)): break
    sim = Sim(scn["cells"], float(scn["unit"]))
    ops = []
    for _ in range(rng.choice([4, 6, 8])):
        r = rng.random()
        ls = sorted(sim.leaf)
        par = lambda k, t: sim.ok_parity(k, t)
        if r < 0.35:
            t = rng.choice(TOKS)
            if all(par(k, t) for k in ls if sim.elig(k)) and len(ls) < 30:
                ks = [[k, t] for k in ls if sim.elig(k)]
                ops.append({"op": "hg", "tok": t}); sim.batch(ks)
        elif r < 0.8:
            items = []
            for _ in range(rng.choice([1, 2, 3])):
                k, t = rng.choice(ls), rng.choice(TOKS)
                if par(k, "T"): items.append([k, t])
            if items:
                ops.append({"op": "hx", "items": items}); sim.batch(items)
        else:
            sel = {}
            for _ in range(3):
                k, t = rng.choice(ls), rng.choice(TOKS)
                if par(k, "T"): sel[k] = t
            sel = [[k, t] for k, t in sel.items()]
            ops.append({"op": "hf", "sel": sel}); sim.batch([x for x in sel if sim.elig(x[0])])
    scn.update({"ops": ops, "views": views, "dump": "all"})
    return scn


def permuted(rng, views, orders=3, depth=6):
    """the same refinements in several orders and groupings; every session must reach the same specification state"""
    scn0 = base(rng, None, depth)
    sim = Sim(scn0["cells"], float(scn0["unit"]))
    todo = []                                    # (key, token) in one valid order
    for _ in range(rng.choice([3, 5, 7, 9])):
        it = h_items(rng, sim, 1)
        if it:
            todo.append(it[0]); sim.ref(*it[0])
    out = []
    for v in range(orders):
        pend = [list(t) for t in todo]
        cur = Sim(scn0["cells"], float(scn0["unit"]))
        ops = []
        while pend:
            avail = [t for t in pend if t[0] in cur.leaf]
            n = rng.choice([1, 1, 2, len(avail)])
            take = rng.sample(avail, min(n, len(avail)))
            for t in take: pend.remove(t)
            items = []
            for k, t in take:
                parts = [[k, t]]
                if rng.random() < 0.3 and t == "T": parts = [[k, "U"], [k, "V"]]
                elif rng.random() < 0.3 and len(t) == 2: parts = [[k, t[0]], [k, t]]
                items += parts
            rng.shuffle(items)
            assert cur.batch(items)
            if len({t for _, t in items}) == 1 and len({k for k, _ in items}) == len(items) and rng.random() < 0.4:
                ops.append({"op": "hl", "ids": [k for k, _ in items], "tok": items[0][1]})
            elif len({k for k, _ in items}) == len(items) and rng.random() < 0.3:
                ops.append({"op": "hf", "sel": items})
            else:
                ops.append({"op": "hx", "items": items})
        s = dict(scn0)
        s.update({"ops": ops, "views": views, "dump": "last"})
        out.append(s)
    return out


def from_tlc(txt, views):
    """scenarios TLC printed while exploring FemMeshMC"""
    import json, re
    out, seen = [], set()
    for m in re.findall(r'^"SCN (.*)"$', txt, re.M):
        s = m.replace('\\"', '"')
        if s in seen: continue
        seen.add(s)
        d = json.loads(s)
        cells = d["base"]
        unit_src = cells == [[-16, -16, 16, 16]]
        scn = {"src": "unit" if unit_src else "file", "unit": repr(1.0 / 16), "cells": cells, "ops": d["ops"],
               "views": views, "dump": "last"}
        if not unit_src:
            scn["nodes"] = [list(p) for p in sorted({(x, y) for r in cells for x in (r[0], r[2]) for y in (r[1], r[3])})]
        out.append(scn)
    return out


def scn_lines(txt):
    """the distinct JSON values TLC printed as "SCN ..." lines"""
    import json, re
    seen = {}
    for m in re.findall(r'^"SCN (.*)"$', txt, re.M):
        seen.setdefault(json.loads('"' + m + '"'), None)
    return [json.loads(s) for s in seen]


# ------------------------------------------------------------------ mesh files

def jn(v, x=""): return {"t": "n", "v": v, "x": x, "k": [], "a": []}
def jl(t, x): return {"t": t, "v": 1, "x": x, "k": [], "a": []}
def ja(a): return {"t": "a", "v": 0, "x": "", "k": [], "a": a}
def jo(k, a): return {"t": "o", "v": 0, "x": "", "k": k, "a": a}


def document(rng):
    """a correct mesh document with coordinates and materials in eighths"""
    scn = base(rng, rng.choice(["single", "pair", "col", "quad", "ell", "ring", "diag", "grid", "strip", "random"]), rng.choice([0, 1, 3, 5]))
    ns = scn["nodes"]
    at = {tuple(p): i for i, p in enumerate(ns)}
    # now and then far away from the origin, or with very large material values
    far = [rng.choice([0, 1, -1]) * rng.randrange(1 << 20, 1 << 29) for _ in range(2)] if rng.random() < 0.3 else [0, 0]
    big = rng.random() < 0.3
    es = []
    for r, m in zip(scn["cells"], scn["mats"]):
        ids = [at[(r[0], r[1])], at[(r[2], r[1])], at[(r[0], r[3])], at[(r[2], r[3])]]
        if big: m = [rng.randrange(-(1 << 30), 1 << 30) for _ in m]
        kv = [("materials", ja([jn(v) for v in m])), ("node_ids", ja([jn(8 * i) for i in ids]))]
        if rng.random() < 0.2: kv.append(("comment", jl("s", '"x"')))
        rng.shuffle(kv)
        es.append(jo([k for k, _ in kv], [v for _, v in kv]))
    kv = [("Elements", ja(es)), ("Nodes", ja([ja([jn(p[0] + far[0]), jn(p[1] + far[1])]) for p in ns]))]
    if rng.random() < 0.2: kv.append(("info", jo([], [])))
    rng.shuffle(kv)
    return jo([k for k, _ in kv], [v for _, v in kv])


def damage(rng, d):
    """one random edit somewhere in the document (it may well remain correct)"""
    spots = []
    def walk(j):
        for i, x in enumerate(j["a"]):
            spots.append((j, i)); walk(x)
    walk(d)
    if not spots: return
    j, i = rng.choice(spots)
    r = rng.random()
    if r < 0.45:
        j["a"][i] = rng.choice([jn(8 * rng.randrange(12)), jn(8 * rng.randrange(12)), jn(8 * rng.randrange(12)), jn(rng.randint(-20, 99)), jn(-8), jl("n", "1e300"),
                                jl("s", '"2"'), jl("b", "false"), jl("z", "null"), ja([]), ja([jn(0), jn(8)]), jo([], [])])
    elif r < 0.6:
        del j["a"][i]
        if j["t"] == "o": del j["k"][i]
    elif r < 0.8 and j["t"] == "a":
        import copy
        j["a"].insert(rng.randint(0, len(j["a"])), copy.deepcopy(rng.choice(j["a"])))
    elif r < 0.9 and j["t"] == "a":
        k = rng.randrange(len(j["a"]))
        j["a"][i], j["a"][k] = j["a"][k], j["a"][i]
    elif j["t"] == "o":
        j["k"][i] = rng.choice(["Elements", "Nodes", "node_ids", "materials", "elements", "x"])
        if j["k"].count(j["k"][i]) > 1: j["k"][i] = "y%d" % i
    else:
        j["a"][i] = jn(8 * rng.randrange(6))


def twins(rng, d):
    """two nodes at one place, or (nearly as bad) two cells, anywhere in the lists"""
    import copy
    at = {k: a for k, a in zip(d["k"], d["a"])}
    ns = at["Nodes"]["a"] if rng.random() < .8 else at["Elements"]["a"]
    i, k = rng.randrange(len(ns)), rng.randrange(len(ns))
    if rng.random() < .5: ns[k] = copy.deepcopy(ns[i])
    else: ns.insert(rng.choice([0, len(ns), k]), copy.deepcopy(ns[i])) if rng.random() < .3 else ns.append(copy.deepcopy(ns[i]))


def permuted_hp(rng, views, orders=3, depth=6, steps=(4, 7, 10, 14)):
    """h- and p-refinements of the same cells in several admissible orders and groupings (per-cell order kept)"""
    scn0 = base(rng, None, depth)
    sim = Sim(scn0["cells"], float(scn0["unit"]))
    todo = []
    for _ in range(rng.choice(steps)):
        if rng.random() < 0.55:
            it = h_items(rng, sim, 1)
            if it: todo.append(("h",) + tuple(it[0])); sim.ref(*it[0])
        else:
            k = rng.choice(sorted(sim.rect))
            todo.append(("p", k, rng.randint(0, 2), rng.randint(0, 2)))
    out = []
    for v in range(orders):
        pend = list(todo)
        cur = Sim(scn0["cells"], float(scn0["unit"]))
        ops = []
        while pend:
            avail, busy = [], set()
            for t in pend:
                if t[1] in cur.rect and t[1] not in busy: avail.append(t)
                busy.add(t[1])
            kind = rng.choice([t[0] for t in avail])
            avail = [t for t in avail if t[0] == kind]
            take = rng.sample(avail, min(rng.choice([1, 1, 2, len(avail)]), len(avail)))
            for t in take: pend.remove(t)
            if kind == "h":
                items = []
                for _, k, t in take:
                    parts = [[k, t]]
                    if rng.random() < 0.3 and t == "T": parts = [[k, rng.choice(["U", "U0", "U1"])], [k, rng.choice(["V", "V1"])]]
                    elif rng.random() < 0.3 and len(t) == 2: parts = [[k, t[0]], [k, t]]
                    items += parts
                rng.shuffle(items)
                assert cur.batch(items)
                single = len({k for k, _ in items}) == len(items)
                if single and len({t for _, t in items}) == 1 and rng.random() < 0.4:
                    ops.append({"op": "hl", "ids": [k for k, _ in items], "tok": items[0][1]})
                elif single and rng.random() < 0.3:
                    ops.append({"op": "hf", "sel": items})
                else:
                    ops.append({"op": "hx", "items": items})
            else:
                items = [[k, a, b] for _, k, a, b in take]
                if rng.random() < 0.4 and len({k for k, _, _ in items}) == len(items): ops.append({"op": "pb", "sel": items})
                else: ops.append({"op": "px", "items": items})
            if rng.random() < 0.1: ops.append({"op": "look", "v": rng.choice(["D", "J", "A"])})    # building domains or exporting in between changes nothing
        s = dict(scn0)
        s.update({"ops": ops, "views": views, "dump": "last"})
        out.append(s)
    return out


def forked(rng, views, rounds=3, depth=6):
    """refine a mesh and clones of it alternately"""
    scn = base(rng, None, depth)
    unit = float(scn["unit"])
    sims = [Sim(scn["cells"], unit), None]
    ops = []

    def work(sim, n):
        for _ in range(n):
            op = h_op(rng, sim) if rng.random() < .6 else small_p_op(rng, sim)
            if op: ops.append(op)
    import copy
    work(sims[0], 2)
    for _ in range(rounds):
        if sims[1] is None or rng.random() < 0.3:
            ops.append({"op": "fork"})
            sims[1] = copy.deepcopy(sims[0])
        if len(sims[0].leaf) < 40: work(sims[0], rng.choice([1, 2]))
        ops.append({"op": "swap"})
        sims.reverse()
    scn.update({"ops": ops, "views": views, "dump": "all"})
    return scn


# ------------------------------------------------------------------ value types

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]


def h_algebra(rng, th):
    ev = [{"f": "hadd", "t": [a]} for a in TOKS] + [{"f": "hadd", "t": [a, b]} for a in TOKS for b in TOKS]
    ev += [{"f": "hadd", "t": [a, b, c]} for a in TOKS for b in TOKS for c in TOKS]
    for _ in range(4000 if th else 300): ev.append({"f": "hadd", "t": [rng.choice(TOKS) for _ in range(rng.randint(4, 7))]})
    ev += [{"f": "hctor", "k": k, "x": x} for k in "UV" for x in (0, 1, 2, 3, 255)]
    for t in "TUV": ev += [{"f": "lev", "l": [a, b], "t": [t]} for a in (0, 1, 7, 254) for b in (0, 2, 9, 254)]
    ev += [{"f": "rank", "l": [a, b], "d": d} for d in "UV" for a in (0, 1, 9) for b in (0, 2, 9)]
    for l in ("SW", "SE", "NW", "NE", "W", "E", "S", "N"):
        ev += [{"f": "idx", "loc": l}, {"f": "sub", "loc": l, "r": [-4, 2, 8, 10]}, {"f": "sub", "loc": l, "r": [-1024, -1024, 1024, 1024]}]
    return [{"ev": c} for c in chunks(ev, 100)]


def p_algebra(rng, th):
    ev = []
    V = list(range(1, 21))
    D = [-128, -127, -40, -20, -19, -18, -3, -2, -1, 0, 1, 2, 3, 17, 18, 19, 20, 40, 126, 127]
    for n in V:
        for d in (range(-128, 128) if th else [d for d in range(-22, 23)] + [-128, 127]):
            o, p = ([n, rng.choice(V)], [[d, rng.choice([0, 0, rng.choice(D)])]])
            if rng.random() < .5: o.reverse(); p = [p[0][::-1]]
            ev.append({"f": "prefine", "o": o, "p": p})
    for _ in range(6000 if th else 700):
        p = [[rng.choice(D), rng.choice(D)] for _ in range(rng.randint(1, 5))]
        if rng.random() < .5: p.append([rng.randint(-3, 3) - sum(x[0] for x in p) , rng.randint(-3, 3) - sum(x[1] for x in p)])
        p = [[max(-128, min(127, a)), max(-128, min(127, b))] for a, b in p]
        s = [sum(x[0] for x in p), sum(x[1] for x in p)]
        ev.append({"f": "prefine", "o": [rng.choice(V), rng.choice(V)], "p": p})
        w = []
        for c in (0, 1):
            n = rng.choice(V); w += [1 - n, 20 - n]
        ev.append({"f": "pclamp", "p": p, "w": w})
        ev.append({"f": "pin", "p": p, "w": w})
        if all(-128 <= x <= 127 for x in s): ev.append({"f": "psum", "p": p})
    for x in D: ev += [{"f": "pdir", "d": d, "x": x} for d in "UV"]
    for a in (0, 1, 2, 19, 20, 21, 128, 255):
        for b in (0, 1, 5, 20, 21, 255):
            ev += [{"f": "onew", "n": [a, b]}, {"f": "oset", "o": [rng.choice(V), rng.choice(V)], "n": [a, b]}, {"f": "omax", "o": [a, b], "n": [b, a]}]
    for o in ([1, 2], [20, 1], [7, 7], [9, 20]): ev.append({"f": "oarr", "o": o})
    for o in ([1, 1], [1, 4], [3, 2], [20, 19]): ev += [{"f": "perm", "o": o, "d": d} for d in "UVW"]
    return [{"ev": c} for c in chunks(ev, 200)]


def wrong_h(rng, sim):
    """a request with several things wrong at once, so that naming any of them is right and naming anything else is not"""
    items = shrink(sim, h_items(rng, sim, rng.choice([0, 1, 2, 4])))
    refined = [k for k in sim.rect if k not in sim.leaf]
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < .35: items.append([rng.choice(["!0", "!1", "!5", "!max"]), rng.choice(TOKS)])
        elif r < .7 and refined: items += [[rng.choice(refined), rng.choice(TOKS)]] * rng.choice([1, 1, 2])
        else: items.append([rng.choice(sorted(sim.leaf)), rng.choice(["U2", "V2", "U9"])])
    rng.shuffle(items)
    if rng.random() < .2: return {"op": "hl", "ids": far_twins(rng, sorted(sim.leaf)), "tok": rng.choice(TOKS + ["U2"])}
    if rng.random() < .3:
        return {"op": "hl", "ids": [k for k, _ in items], "tok": rng.choice(TOKS + ["U2"])}
    return {"op": "hx", "items": items}


def wrong_p(rng, sim):
    """order changes of which at least one is out of range, missing, or given twice"""
    keys = sorted(sim.rect)
    ks = [rng.choice(keys + ["!0", "!2", "!max"]) if rng.random() < .3 else rng.choice(keys) for _ in range(rng.choice([1, 2, 3, 5]))]
    d = lambda: [rng.choice([0, 1, -1, 2, 18, 19, 20, -19, 127, -128]) for _ in range(2)]
    o = lambda: [rng.choice([0, 1, 2, 3, 7, 20, 21, 255]) if rng.random() < .4 else rng.randint(1, 20) for _ in range(2)]
    form = rng.choice(["px", "px", "pl", "pb", "sx", "sx", "sl", "sf"])
    if form in ("pl", "sl") and rng.random() < .5: ks = far_twins(rng, keys)
    elif form == "sx" and rng.random() < .3:
        two = o()
        return {"op": "sx", "items": [[k] + (two if rng.random() < .7 else o()) for k in far_twins(rng, keys)]}
    if form == "px": return {"op": "px", "items": [[k] + d() for k in ks]}
    if form == "pl": return {"op": "pl", "ids": ks, "d": d()}
    if form == "pb": return {"op": "pb", "sel": [[k] + d() for k in dict.fromkeys(ks) if k in sim.rect] or [[keys[0], 20, 0]]}
    if form == "sx": return {"op": "sx", "items": [[k] + o() for k in ks]}
    if form == "sf": return {"op": "sf", "sel": [[k] + o() for k in dict.fromkeys(ks) if k in sim.rect] or [[keys[0], 20, 1]]}
    return {"op": "sl", "ids": ks, "o": o()}


def wrong(rng, views):
    """histories that are mostly rejected requests"""
    scn = base(rng, None, 6)
    sim = Sim(scn["cells"], float(scn["unit"]))
    ops = []
    for _ in range(rng.choice([5, 8, 12])):
        r = rng.random()
        op = h_op(rng, sim) if r < .3 and len(sim.leaf) < 40 else small_p_op(rng, sim, 20) if r < .4 else wrong_h(rng, sim) if r < .7 else wrong_p(rng, sim)
        if op is not None: ops.append(op)
    scn.update({"ops": ops, "views": "", "dump": "all"})
    if views: scn["ops"].append({"op": "look", "v": views})
    return scn


def blank(rng, views):
    """the mesh without any cell: every request on it is empty or names something that does not exist"""
    ops = []
    for _ in range(rng.choice([1, 3, 5])):
        miss = rng.choice(["!0", "!1", "!max"])
        ops.append(rng.choice([
            {"op": "hg", "tok": rng.choice(TOKS)}, {"op": "hx", "items": []}, {"op": "hx", "items": [[miss, rng.choice(TOKS)]]},
            {"op": "hl", "ids": [], "tok": "T"}, {"op": "hl", "ids": [miss], "tok": "U"}, {"op": "hf", "sel": []},
            {"op": "px", "items": []}, {"op": "px", "items": [[miss, 1, 0]]}, {"op": "pl", "ids": [miss], "d": [0, 0]}, {"op": "pg", "d": [1, -1]},
            {"op": "sg", "o": [3, 4]}, {"op": "sx", "items": [[miss, 2, 2]]}, {"op": "sl", "ids": [], "o": [1, 2]}, {"op": "fork"}]))
    return {"src": "blank", "via": rng.choice(["mesh", "domain"]), "unit": "1.0", "cells": [], "nodes": [], "mats": [], "ops": ops, "views": views, "dump": "all"}
