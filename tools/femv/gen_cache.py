"""Scenarios for the basis-function cache."""
from . import gen_mesh as g, gen_num as q


def npow(o):
    p = 1
    while p < 4 * o: p *= 2
    return p


def group(rng, curl):
    o = [rng.choice([1, 2, 3, 4, 5, 7]), rng.choice([1, 2, 3, 4, 5, 7])] if not curl else [rng.randint(1, 3), rng.randint(1, 3)]
    if not curl and rng.random() < .08: o = [rng.randint(1, 20), rng.randint(1, 20)]
    n = [rng.choice([0, 0, 1, 2, 5, 8]) if not curl else rng.randint(1, 4) for _ in (0, 1)]
    own = [n[d] or npow(o[d]) for d in (0, 1)]
    ns = sorted(set(own))
    return {"o": o, "n": n, "own": own, "ns": ns, "d2": rng.random() < .4, "curl": curl}


def under(sim):
    """cell -> its proper descendants"""
    ks = sorted(sim.rect)
    return {k: [x for x in ks if x.startswith(k + ".")] for k in ks}


def pick(rng, sim, hot):
    if hot and rng.random() < .6: return rng.choice(hot)
    d = under(sim)
    r = rng.random()
    x = rng.choice(sorted(d))
    if r < .35 or not d[x]:
        p = [x, ""] if rng.random() < .7 else [x, x]
    else:
        p = [x, rng.choice(d[x])]
    hot.append(p)
    return p


def scenario(rng, threads, curl=False, booms=False, nreq=8):
    scn, sim = q.grown(rng, rng.choice([1, 2, 3, 4]), depth=8, cap=20, chain=rng.random() < .4)
    groups = [group(rng, curl) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(groups) > 1 and rng.random() < .5: groups[1] = dict(groups[0])      # same settings, separate sampler
    hot, phases, pre = [], [], scn.pop("ops")
    for ph in range(rng.choice([1, 2, 3])):
        ops = pre if ph == 0 else []
        if ph and rng.random() < .5:
            it = g.shrink(sim, g.h_items(rng, sim, 1))
            if it and sim.batch(it): ops = [{"op": "hx", "items": it}]
        ts = []
        for _ in range(threads):
            rs = []
            for _ in range(rng.randint(1, nreq)):
                p = pick(rng, sim, hot)
                if curl and rng.random() < .06: p = [rng.choice(sorted(sim.rect)), rng.choice(sorted(sim.rect))]   # perhaps unrelated: constructor panics
                rs.append(p + [rng.randrange(len(groups)), rng.choice([0, 0, 0, 30, 150]) if threads > 1 else 0])
            ts.append(rs)
        phases.append({"ops": ops, "threads": ts})
    boom = []
    if booms:
        for p in rng.sample(hot, min(len(hot), rng.choice([1, 1, 2]))):
            if not any(b[:2] == p for b in boom): boom.append(p + [rng.choice([1, 1, 2, 5])])
    return {**{k: scn[k] for k in scn if k in ("src", "cells", "nodes", "mats", "unit")}, "groups": groups, "boom": boom, "phases": phases}


def wide(rng, cap=0):
    """one cell sampled over each of very many descendants, and again, by one or two threads"""
    scn, sim = q.grown(rng, 0, depth=8, kind=rng.choice(["unit", "pair"]))
    ops, cap = [], cap or rng.choice([30, 60, 110])
    k = "r0"
    while len(sim.rect) < cap:
        leaves = [x for x in sorted(sim.leaf) if x.startswith(k)]
        x = rng.choice(leaves)
        t = rng.choice([t for t in g.TOKS if sim.elig(x) and sim.feas(x, t)] or ["T"])
        if not sim.batch([[x, t]]): break
        ops.append({"op": "hx", "items": [[x, t]]})
    grp = group(rng, False)
    below = [x for x in sorted(sim.rect) if x != k]
    rng.shuffle(below)
    reqs = [[k, x] for x in below if x.startswith(k + ".")] + [[x, ""] for x in below]
    again = rng.sample(reqs, min(len(reqs), 40)) + reqs[:40]
    ts = [[p + [0, 0] for p in part] for part in ([reqs + again] if rng.random() < .6 else [reqs, again + reqs[:20]])]
    return {**{x: scn[x] for x in scn if x in ("src", "cells", "nodes", "mats", "unit")}, "groups": [grp], "boom": [], "phases": [{"ops": ops, "threads": ts}]}
