"""Checks of the numeric properties (quadrature, shape and basis functions, integrals, fields, solver)."""
import random
from . import gen_cache as ca, gen_lin as l, gen_mesh as gm, gen_num as q, gen_slepc as sl
from .props_mesh import number, take


def count_evals(run, S):
    for s in S:
        for e in s["ev"]:
            run.evaluations += 1
            run.distinct.add(str(e))


def c23(run):
    rng = random.Random(run.seed * 31 + 23)
    th = run.tier == "thorough"
    ns = list(range(1, 161 if th else 65)) + ([200, 255, 256] if th else [72, 81, 96, 107, 128, 136, 149, 160, 181, 200])
    S = q.rules(rng, ns) + q.sums(rng, 3000 if th else 300) + q.sumx(rng, 2000 if th else 200)
    count_evals(run, S)
    run.conform("quad", "FemQuadTrace", number(S))



def tally(run, S):
    """requests made on library objects; a mesh history with its request counts as one input"""
    for s in S:
        for v, rs in s["num"].items():
            for r in rs if isinstance(rs, list) else [rs]:
                run.evaluations += max(1, len(r.get("at", [])) if v == "b" else len(r.get("f", [])) if v == "i" else len(r.get("do", [])) if v == "f" else 1)
                run.distinct.add(str((s["cells"], s["ops"], r)))


def numeric(run, S):
    tally(run, S)
    run.conform("mesh", "FemNumTrace", number(S))


def field_model(run, quick, thorough):
    for b in thorough if run.tier == "thorough" else quick:
        env = {"MC_BASE": b[0], "MC_OPS": str(b[1]), "MC_TOKS": b[2], "MC_P": b[3]}
        run.model("FemFieldMC", "FemFieldMC.cfg", env, "exact continuity, base=%s ops<=%d tokens=%s p=%s" % b)


def c11(run):
    rng = random.Random(run.seed * 31 + 11)
    f = 15 if run.tier == "thorough" else 3
    field_model(run, [("unit", 2, "plain", "yes"), ("unit", 2, "all", "no"), ("pair", 2, "plain", "yes"), ("ell", 2, "plain", "no")],
                [("unit", 3, "plain", "yes"), ("unit", 3, "all", "no"), ("pair", 2, "all", "yes"), ("pair", 3, "plain", "no"), ("col", 3, "plain", "no"),
                 ("ell", 3, "plain", "no"), ("quad", 2, "plain", "yes")])
    S = q.trace_scns(rng, 220 * f) + q.trace_scns(rng, 12 * f, cap=8, top=9) + q.trace_scns(rng, 12 * f, cap=36, top=2)
    numeric(run, S)


def c13(run):
    rng = random.Random(run.seed * 31 + 13)
    f = 12 if run.tier == "thorough" else 2
    S = q.crowded(rng) + q.asm_scns(rng, 160 * f) + q.asm_scns(rng, 8 * f, cap=24, top=2)
    for n in (None, [4, 4], [3, 8]):
        scn = gm.blank(rng, "g")
        scn["num"] = {"g": [q.asm_req(rng, n, rng.choice([0, 2])), q.asm_req(rng, None, 0, "HDiv")]}
        S.append(scn)
    numeric(run, S)


def c14(run):
    rng = random.Random(run.seed * 31 + 14)
    f = 12 if run.tier == "thorough" else 5
    numeric(run, q.integral_scns(rng, 220 * f))
    numeric(run, q.asm_scns(rng, 45 * f, letter="m", cap=8, top=3, many=False) + q.default_grids(rng, 8 * f))


def c26(run):
    rng = random.Random(run.seed * 31 + 26)
    th = run.tier == "thorough"
    for n, deep in [("4", "yes"), ("8", "no")] if th else [("3", "no")]:
        run.model("FemPartsMC", "FemPartsMC.cfg", {"MC_ORDER": n, "MC_DEEP": deep}, "all pairs of functions up to order %s, deep placements: %s" % (n, deep))
    f = 12 if th else 4
    numeric(run, q.integral_scns(rng, 140 * f, parts=True))


def c20(run):
    rng = random.Random(run.seed * 31 + 20)
    f = 12 if run.tier == "thorough" else 6
    numeric(run, q.field_scns(rng, 220 * f, 0) + q.field_scns(rng, 10 * f, 0, cap=20, top=2) + q.field_scns(rng, 12 * f, 0, cap=6, top=9) + q.field_crowds(rng))


def c21(run):
    rng = random.Random(run.seed * 31 + 21)
    f = 12 if run.tier == "thorough" else 6
    numeric(run, q.field_scns(rng, 110 * f, 8) + q.field_scns(rng, 60 * f, 14, cap=5, top=2) + q.field_crowds(rng))


def c24(run):
    rng = random.Random(run.seed * 31 + 24)
    f = 12 if run.tier == "thorough" else 5
    S = q.shapes(rng, list(range(0, 21)) * (4 if run.tier == 'thorough' else 1) + ([25, 32, 40] if run.tier == 'thorough' else []), 8)
    count_evals(run, S)
    run.conform("quad", "FemQuadTrace", number(S))
    numeric(run, q.basis_scns(rng, 150 * f))


def c27(run):
    from . import gen_geo
    th = run.tier == "thorough"
    run.model("FemGeoMC", "FemGeoMC.cfg", {"MC_DEEP": "yes" if th else "no"}, "all pairs of small matrices, triples of nearby coordinates")
    rng = random.Random(run.seed * 31 + 27)
    run.conform("geo", "FemGeoTrace", number(gen_geo.scns(rng, 30000 if th else 12000)))


def c30(run):
    rng = random.Random(run.seed * 31 + 30)
    th = run.tier == "thorough"
    f = 12 if th else 1
    for b, n, t, p, i, j in ([("unit", 3, "plain", "yes", 1, 1), ("unit", 3, "all", "no", 2, 1), ("pair", 3, "plain", "no", 1, 2), ("pair", 2, "all", "yes", 2, 1),
                              ("quad", 2, "plain", "yes", 1, 1), ("col", 2, "all", "yes", 1, 2), ("ell", 2, "all", "no", 2, 2), ("ring", 1, "all", "yes", 1, 1),
                              ("diag", 2, "all", "no", 2, 1)] if th else
                             [("unit", 2, "all", "yes", 1, 1), ("pair", 2, "plain", "yes", 1, 2), ("ell", 1, "all", "yes", 2, 1), ("ring", 1, "all", "no", 1, 1)]):
        run.model("FemSpaceMC", "FemSpaceMC.cfg", {"MC_BASE": b, "MC_OPS": str(n), "MC_TOKS": t, "MC_P": p, "MC_NI": str(i), "MC_NJ": str(j)},
                  "exact Gram matrices, base=%s ops<=%d tokens=%s p=%s orders from %d, %d" % (b, n, t, p, i, j))
    S = q.space_scns(rng, 170 * f) + q.space_scns(rng, 30 * f, nops=10, chain=1) + q.space_scns(rng, 12 * f, size=140)
    tally(run, S)
    run.conform("mesh", "FemSpaceTrace", number(S))


def c31(run):
    rng = random.Random(run.seed * 31 + 31)
    f = 12 if run.tier == "thorough" else 1
    S = q.cavity_scns(rng, 200 * f)
    tally(run, S)
    run.conform("mesh", "FemCavityTrace", number(S))


CHECKS = {"C30": c30, "C31": c31, "C11": c11, "C13": c13, "C14": c14, "C20": c20, "C21": c21, "C23": c23, "C24": c24, "C26": c26, "C27": c27}


def ops_tally(run, S):
    for s in S:
        run.evaluations += len(s["ops"])
        run.distinct.add(str(s["ops"]))


def sparse_model(run):
    n = 4 if run.tier == "thorough" else 3
    run.model("FemSparseMC", "FemSparseMC.cfg", {"MC_OPS": str(n)}, "two matrices of dimension 2, %d operations" % n)


def c16(run):
    rng = random.Random(run.seed * 31 + 16)
    f = 20 if run.tier == "thorough" else 5
    sparse_model(run)
    S = l.limits() + [l.sparse_history(rng, False) for _ in range(600 * f)] + [l.large(rng, False) for _ in range(2 * f)]
    ops_tally(run, S)
    run.conform("lin", "FemSparseTrace", number(S))


def c17(run):
    rng = random.Random(run.seed * 31 + 17)
    f = 20 if run.tier == "thorough" else 4
    sparse_model(run)
    S = ([l.export_scn(rng, 14, False) for _ in range(200 * f)] + [l.export_scn(rng, 14, True) for _ in range(200 * f)] +
         [l.export_scn(rng, 60, True) for _ in range(3 * f)] + [l.sparse_history(rng, True) for _ in range(100 * f)] + [l.full_device(rng)] + [l.large(rng, True) for _ in range(f)] + [l.wide_export(rng)])
    ops_tally(run, S)
    run.conform("lin", "FemSparseTrace", number(S))


CHECKS.update({"C16": c16, "C17": c17})


def c25(run):
    rng = random.Random(run.seed * 31 + 25)
    th = run.tier == "thorough"
    f = 15 if th else 2
    for n, w, eager in ([(0, 2, "no"), (3, 3, "no"), (4, 2, "yes"), (5, 3, "yes"), (6, 2, "no"), (5, 4, "no")] if th else
                        [(0, 2, "no"), (3, 2, "no"), (4, 3, "no"), (3, 2, "yes"), (4, 3, "yes")]):
        run.model("FemPar", "FemPar.cfg", {"MC_ITEMS": str(n), "MC_WORKERS": str(w), "MC_EAGER": eager},
                  "%d items, %d workers, collector concurrent: %s" % (n, w, eager))
    S = [l.par_scn(rng, 150, 12) for _ in range(150 * f)] + [l.par_scn(rng, 4000 if th else 1500, 4) for _ in range(4 * f)]
    ops_tally(run, S)
    run.conform("lin", "FemSparseTrace", number(S), timeout=300)
    M = q.asm_scns(rng, 50 * f, many=False)
    for s in M:
        r = s["num"]["g"][0]
        s["num"]["g"] = [dict(r, threads=t) for t in rng.sample([1, 2, 3, 4, 8, 16], 3)]
    numeric(run, M)


CHECKS["C25"] = c25


def c19(run):
    rng = random.Random(run.seed * 31 + 19)
    th = run.tier == "thorough"
    f = 60 if th else 12
    S = [{"ev": [l.solve_ev(rng, n) for _ in range(4)]} for n in [1, 2, 2, 3, 3, 4, 5, 6, 7, 8] * (12 * f)]
    S += [{"ev": [l.solve_ev(rng, n)]} for n in ([10, 12, 14, 16, 20, 30, 45, 60] * f if th else [10, 12, 16, 25, 40])]
    S += [{"ev": [l.bad_ev(rng) for _ in range(3)]} for _ in range(25 * f)]
    S += [{"ev": [l.norm_ev(rng) for _ in range(4)]} for _ in range(25 * f)]
    S += [{"ev": [l.near_tie(rng) for _ in range(4)]} for _ in range(8 * f)]
    S += [{"ev": [l.diag_ev(rng, n)]} for n in ([30, 200, 999, 1000, 1001, 1500] if th else [30, 1000, 1001])]
    count_evals(run, S)
    run.conform("eig", "FemEigTrace", number(S) + l.noncommuting())


CHECKS["C19"] = c19


def c15(run):
    rng = random.Random(run.seed * 31 + 15)
    th = run.tier == "thorough"
    f = 15 if th else 5
    for t, k, r, hold, boom in ([(3, 2, 2, "yes", "no"), (3, 2, 2, "yes", "yes"), (3, 2, 2, "no", "yes"), (2, 3, 3, "yes", "yes"), (4, 2, 1, "no", "yes")] if th else
                                [(2, 2, 2, "yes", "no"), (2, 2, 2, "yes", "yes"), (2, 2, 2, "no", "yes")]):
        run.model("FemCache", "FemCache.cfg", {"MC_THREADS": str(t), "MC_KEYS": str(k), "MC_REQS": str(r), "MC_HOLD": hold, "MC_BOOM": boom},
                  "%d threads, %d keys, %d requests each, lock held while building: %s, panicking constructor: %s" % (t, k, r, hold, boom))
    S = [ca.scenario(rng, 1, nreq=25) for _ in range(60 * f)] + [ca.scenario(rng, 1, booms=True, nreq=25) for _ in range(30 * f)]
    S += [ca.scenario(rng, rng.choice([2, 3, 4, 8])) for _ in range(60 * f)] + [ca.scenario(rng, rng.choice([2, 3, 4, 8]), booms=True) for _ in range(60 * f)]
    S += [ca.scenario(rng, rng.choice([1, 2, 4]), curl=True, nreq=6) for _ in range(40 * f)]
    S += [ca.wide(rng) for _ in range(4 * f)] + [ca.wide(rng, c) for c in ((300, 600, 1100) if th else (320,))]
    for s in S:
        n = sum(len(t) for ph in s["phases"] for t in ph["threads"])
        run.evaluations += n
        run.distinct.add(str(s["phases"]))
    run.conform("cache", "FemCacheTrace", number(S))


CHECKS["C15"] = c15


def c18(run):
    rng = random.Random(run.seed * 31 + 18)
    th = run.tier == "thorough"
    f = 15 if th else 4
    for n in (1, 2, 3) if th else (1, 2):
        run.model("FemSlepcMC", "FemSlepcMC.cfg", {"MC_CALLS": str(n), "MC_UNIQUE": "yes"}, "%d calls sharing a directory, every fault at every step" % n)
    S = sl.faults(rng) + sl.every_exit(rng) + [sl.single(rng) for _ in range(120 * f)] + [sl.single(rng, "bad") for _ in range(60 * f)]
    S += [sl.too_big(rng) for _ in range(12 * f)] + [sl.long_vector(rng) for _ in range(f)]
    S += [sl.together(rng, rng.choice([2, 3, 4, 8])) for _ in range(25 * f)] + [sl.together(rng, rng.choice([2, 4, 8]), "stopped") for _ in range(10 * f)]
    for s in S:
        run.evaluations += len(s["calls"])
        run.distinct.add(str(s["calls"]))
    run.conform("slepc", "FemSlepcTrace", number(S))


CHECKS["C18"] = c18
