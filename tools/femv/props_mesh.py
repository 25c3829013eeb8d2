"""Checks of the mesh properties (C01-C10, C12, C22)."""
import random
from . import gen_mesh as g

MC_ENV = {"MC_EMIT": "yes"}


def explore(run, base, ops, batch="no", toks="all", p="no", cfg="FemMeshMC.cfg"):
    """exhaust FemMeshMC for one bound, return the histories it visited"""
    env = {"MC_BASE": base, "MC_OPS": str(ops), "MC_BATCH": batch, "MC_TOKS": toks, "MC_P": p, "MC_EMIT": "yes"}
    return run.model("FemMeshMC", cfg, env, cfg[:-4] + " base=%s ops<=%d batch=%s tokens=%s p=%s" % (base, ops, batch, toks, p))


def take(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def bounds(run, quick, thorough):
    return thorough if run.tier == "thorough" else quick


def tlc_histories(run, rng, views, quick, thorough, cap_q, cap_t):
    out = []
    for b in bounds(run, quick, thorough):
        out += g.from_tlc(explore(run, *b), views)
    return take(rng, out, bounds(run, cap_q, cap_t))


def number(scns):
    for i, s in enumerate(scns):
        s["sid"] = "s%05d" % i
    return scns


Q_STD = [("unit", 2, "no", "all"), ("pair", 2, "no", "all"), ("ell", 2, "no", "plain")]
T_STD = [("unit", 3, "no", "all"), ("pair", 2, "yes", "all"), ("pair", 3, "no", "plain"), ("col", 3, "no", "plain"),
         ("quad", 2, "no", "all"), ("ell", 3, "no", "plain"), ("unit", 2, "yes", "all")]


def standard(run, views, n_hist, n_deep, n_perm=0, p=False, cap=1, quick=Q_STD, ops=6, cells=50):
    """TLC histories + random histories (several cells, several forms) + deep chains, all through the same views"""
    rng = random.Random(run.seed * 7919 + 13)
    f = 12 if run.tier == "thorough" else 4
    S = tlc_histories(run, rng, views, quick, T_STD, 900 * cap, 6000 * cap)
    mix = (("h", 5), ("bad", 1), ("sp", 2), ("look", .5)) if p else (("h", 5), ("bad", 1), ("sp", .6), ("look", .6), ("fork", .15))
    for _ in range(n_hist * f):
        S.append(g.history(rng, rng.choice([2, 4, ops, ops + 3]), views, mix=mix, cap=cells, dump=rng.choice(["all", "last"])))
    for _ in range(n_deep * f):
        S.append(g.deep(rng, views, levels=rng.choice([4, 7, 10, 13, 16, 21])))
    for _ in range(2 * f):
        S.append(g.large(rng, views))
        S.append(g.blank(rng, views))
        if views not in ("D", "Q"): S.append(g.bulk(rng, views))
    for _ in range(n_perm * f):
        S += g.permuted(rng, views)
    return rng, S


def c01(run):
    rng = random.Random(run.seed * 31 + 1)
    th = run.tier == "thorough"
    S = []
    docs = []
    for b in ("one", "pair", "col", "quad") if th else ("one", "pair"):
        docs += g.scn_lines(run.model("FemImportMC", "FemImportMC.cfg", {"MC_BASE": b, "MC_OPS": "1", "MC_EMIT": "yes"}, "edits of %s" % b))
    if th:
        docs += take(rng, g.scn_lines(run.model("FemImportMC", "FemImportMC.cfg", {"MC_BASE": "one", "MC_OPS": "2", "MC_EMIT": "yes"}, "two edits of one")), 12000)
    for d in docs:
        S.append({"kind": "doc", "doc": d["doc"], "style": rng.randrange(4), "views": "ENSAPDQJ"})
    for _ in range(150 * (8 if th else 4)):
        d = g.document(rng)
        r = rng.random()
        for _ in range(0 if r < .5 else 1 if r < .8 else 2):
            g.damage(rng, d)
        S.append({"kind": "doc", "doc": d, "style": rng.randrange(4), "views": "ENSAPDQJ"})
    for _ in range(60 * (8 if th else 4)):
        d = g.document(rng)
        g.twins(rng, d)
        S.append({"kind": "doc", "doc": d, "style": rng.randrange(4), "views": "ENSAPDQJ"})
    for k in ("missing", "dir", "bytes") + ("cut",) * 40:
        S.append({"kind": k, "doc": g.document(rng), "style": rng.randrange(4), "at": rng.randrange(10000), "views": ""})
    run.conform("import", "FemImportTrace", number(S))
    # meshes of every shape and scale, unedited
    S = [g.large(rng, "ENSAPDQJ") for _ in range(40 if th else 12)]
    for _ in range(60 * (8 if th else 3)):
        scn = g.base(rng)
        scn.update({"ops": [], "views": "ENSAPDQJ", "dump": "all"})
        S.append(scn)
    run.conform("mesh", "FemMeshTrace", number(S))


def c02(run):
    rng, S = standard(run, "E", 60, 30)
    run.conform("mesh", "FemMeshTrace", number(S))


def c03(run):
    rng, S = standard(run, "NS", 60, 15, n_perm=8)
    run.conform("mesh", "FemMeshTrace", number(S))


def c04(run):
    rng = random.Random(run.seed * 31 + 4)
    f = 12 if run.tier == "thorough" else 5
    explore(run, "unit", 2, "yes", "all")
    S = []
    for i in range(70 * f):
        S.append(g.min_edge(rng, "ES" if i % 4 else "ENSAP", exact=i % 3 == 0))
    S += [g.blank(rng, "ENSAP") for _ in range(4 * f)]
    for i in range(60 * f):
        S.append(g.history(rng, rng.choice([4, 7, 10]), "ENSAP" if i % 2 else "EQ", mix=(("h", 2), ("bad", 4), ("sp", 1)), cap=40))
    run.conform("mesh", "FemMeshTrace", number(S))


def c05(run):
    rng = random.Random(run.seed * 31 + 5)
    f = 12 if run.tier == "thorough" else 4
    S = tlc_histories(run, rng, "E", [("unit", 1, "yes", "all"), ("pair", 1, "yes", "all"), ("unit", 2, "no", "all")],
                      [("unit", 2, "yes", "all"), ("pair", 1, "yes", "all"), ("quad", 1, "yes", "all"), ("pair", 2, "yes", "plain")], 700, 8000)
    run.model("FemAlgMC", "FemAlgMC.cfg", {}, "sums of up to four tokens")
    run.conform("alg", "FemAlgTrace", number(g.h_algebra(rng, run.tier == "thorough")))
    # every sequence of up to three tokens for one cell in one batch
    for a in g.TOKS:
        for b in g.TOKS:
            S.append(dict(src="unit", unit="0.0625", cells=[[-16, -16, 16, 16]], views="E", dump="last",
                          ops=[{"op": "hx", "items": [["r0", a], ["r0", b]]}]))
    for _ in range(120 * f):
        toks = [rng.choice(g.TOKS) for _ in range(rng.choice([3, 4, 5]))]
        S.append(dict(src="unit", unit="0.0625", cells=[[-16, -16, 16, 16]], views="E", dump="last",
                      ops=[{"op": "hx", "items": [["r0", t] for t in toks]}]))
    for _ in range(70 * f):
        S.append(g.history(rng, rng.choice([3, 5, 8]), "EP", mix=(("h", 6), ("sp", 1)), cap=60))
    for _ in range(3 * f): S.append(g.bulk(rng, "EP"))
    run.conform("mesh", "FemMeshTrace", number(S))


def c06(run):
    rng, S = standard(run, "A", 80, 30, n_perm=10, cap=1)
    # activation as seen after p-changes, exports and on clones
    for _ in range(15):
        S.append(g.history(rng, 8, "AJ", mix=(("h", 3), ("sp", 1), ("fork", 1), ("swap", .4)), cap=30))
    for i in range(40): S.append(g.min_edge(rng, "A", exact=i % 4 == 0))
    run.conform("mesh", "FemMeshTrace", number(S))


def c07(run):
    rng = random.Random(run.seed * 31 + 7)
    th = run.tier == "thorough"
    f = 10 if th else 2
    confl = [("unit", 2, "no", "all"), ("pair", 2, "no", "plain")] if not th else \
            [("unit", 2, "yes", "all"), ("unit", 3, "no", "plain"), ("pair", 2, "no", "all"), ("quad", 2, "no", "plain"), ("ell", 2, "no", "all")]
    for b in confl:
        explore(run, *b, cfg="FemMeshConfluence.cfg")
    S = []
    for i in range(45 * f):
        S += g.permuted_hp(rng, "ENSAPD" if i % 3 == 0 else "ENSAP", orders=4)
    for _ in range(30 * f):
        S += g.permuted(rng, "ENSAP", orders=3)
    for i in range(8 * f):
        S.append(g.min_edge(rng, "ENSAP", exact=i % 4 == 0))
    for i in range(40 * f):
        S.append(g.forked(rng, "ENSAPD" if i % 4 == 0 else "ENSAP", rounds=rng.choice([2, 3, 4])))
    run.conform("mesh", "FemMeshTrace", number(S))


def c08(run):
    rng = random.Random(run.seed * 31 + 8)
    f = 15 if run.tier == "thorough" else 8
    explore(run, "unit", 3, "no", "plain", "yes")
    run.conform("alg", "FemAlgTrace", number(g.p_algebra(rng, run.tier == "thorough")))
    S = []
    for i in range(150 * f):
        S.append(g.history(rng, rng.choice([6, 10, 16]), "P", mix=(("h", 1), ("p", 6)), cap=20))
    S += [g.blank(rng, "P") for _ in range(2 * f)]
    S += [g.bulk(rng, "P", "all") for _ in range(f)]
    run.conform("mesh", "FemMeshTrace", number(S))


def c09(run):
    rng = random.Random(run.seed * 31 + 9)
    f = 15 if run.tier == "thorough" else 8
    S = tlc_histories(run, rng, "P", [("unit", 2, "no", "plain", "yes")], [("unit", 3, "no", "plain", "yes"), ("pair", 2, "no", "plain", "yes")], 300, 4000)
    run.conform("alg", "FemAlgTrace", number(g.p_algebra(rng, run.tier == "thorough")))
    for i in range(150 * f):
        scn = g.history(rng, rng.choice([6, 10, 16]), "P", mix=(("h", 2), ("p", 5)), cap=24)
        S.append(scn)
    for _ in range(2 * f):
        S.append(g.bulk(rng, "P", "all"))
        scn = g.large(rng, "P")
        sim = g.Sim(scn["cells"], float(scn["unit"]))
        scn["ops"] = [op for _ in range(3) for op in [g.p_op(rng, sim)]] + scn["ops"]
        S.append(scn)
    run.conform("mesh", "FemMeshTrace", number(S))


def c10(run):
    rng, S = standard(run, "D", 40, 10, p=True, cap=1, cells=30)
    # high and very different orders on few cells
    for _ in range(12 * (8 if run.tier == "thorough" else 4)):
        scn = g.base(rng, rng.choice(["pair", "col", "single"]), 4)
        sim = g.Sim(scn["cells"], float(scn["unit"]))
        it = g.h_items(rng, sim, 1)
        ops = [{"op": "hx", "items": it}]
        sim.batch(it)
        ops.append({"op": "sx", "items": [[k, rng.choice([1, 2, 3, 7, 12]), rng.choice([1, 2, 3, 7, 12])] for k in sorted(sim.rect)]})
        scn.update({"ops": ops, "views": "D", "dump": "last"})
        S.append(scn)
    scn = g.base(rng, "pair", 4)
    scn.update({"ops": [{"op": "sx", "items": [["r0", 20, 19], ["r1", 18, 20]]}], "views": "D", "dump": "last"})
    S.append(scn)
    run.conform("mesh", "FemMeshTrace", number(S))


def c12(run):
    rng, S = standard(run, "Q", 35, 12, p=True, cap=1, cells=25, quick=[("unit", 2, "no", "all"), ("pair", 2, "no", "plain")])
    run.conform("mesh", "FemMeshTrace", number(S))


def c22(run):
    rng, S = standard(run, "J", 45, 15, p=True, cap=1, cells=30, quick=[("unit", 2, "no", "all"), ("pair", 2, "no", "plain")])
    for s in S:
        if rng.random() < 0.3:                    # exporting must not change the mesh
            s["views"] = "JENSAP"
    for _ in range(8):
        S.append(g.history(rng, 8, "JENSAP", mix=(("h", 3), ("sp", 1), ("fork", 1), ("swap", .4)), cap=25))
    run.conform("mesh", "FemMeshTrace", number(S))


def c28(run):
    from . import gen_num as q
    rng = random.Random(run.seed * 31 + 28)
    th = run.tier == "thorough"
    f = 12 if th else 5
    for b, n in [("unit", 2), ("pair", 1)] if th else [("unit", 1), ("pair", 1)]:
        run.model("FemErrMC", "FemErrMC.cfg", {"MC_BASE": b, "MC_OPS": str(n)}, "requests of up to two items on every mesh of up to %d steps from %s" % (n, b))
    S = [g.wrong(rng, "X" if i % 3 == 0 else "") for i in range(150 * f)]
    S += [g.blank(rng, "X") for _ in range(4 * f)]
    # the minimum edge length met while refining small cells
    S += [g.min_edge(rng, "", exact=i % 3 == 0) for i in range(100 * f)]
    for _ in range(f):
        scn = g.large(rng, "X")
        sim = g.Sim(scn["cells"], float(scn["unit"]))
        scn["ops"] = [g.wrong_h(rng, sim), g.wrong_p(rng, sim)] + scn["ops"]
        S.append(scn)
    S += q.field_scns(rng, 30 * f, 12, cap=5, top=2)
    run.conform("mesh", "FemErrTrace", number(S))


def c29(run):
    from . import gen_num as q
    rng = random.Random(run.seed * 31 + 29)
    th = run.tier == "thorough"
    for b in [("unit", 2, "all"), ("pair", 1, "all"), ("quad", 1, "plain"), ("col", 2, "plain")] if th else [("unit", 1, "all"), ("pair", 1, "plain")]:
        run.model("FemLocMC", "FemLocMC.cfg", {"MC_BASE": b[0], "MC_OPS": str(b[1]), "MC_TOKS": b[2]}, "all functions up to order 3, base=%s ops<=%d tokens=%s" % b)
    run.conform("mesh", "FemLocTrace", number(q.loc_scns(rng, 5000 if th else 400)))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
          "C12": c12, "C22": c22, "C28": c28, "C29": c29}
