"""Scenarios for sparse matrices, eigenproblems and their solvers."""
import random, struct


def hx(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", float(x)))[0]


def small(rng):
    """values whose sums stay exact"""
    return rng.choice([0.0, 1.0, -1.0, 2.0, -0.5, 0.25, 3.75, -8.0, rng.randint(-1000, 1000) / 64.0])


WEIRD = ["0010000000000000", "0000000000000001", "7fefffffffffffff", "ffefffffffffffff", "3ff0000000000001", "800fffffffffffff",
         "4059000000000000", "bff3c0ca428c59fb", "400921fb54442d18", "3fb999999999999a", "0123456789abcdef", "fedcba9876543210"]


def positions(rng, d, kind):
    """a sparsity pattern"""
    p = []
    if kind == "last":
        p = [(d - 1, d - 1)]
    elif kind == "first":
        p = [(0, 0)]
    elif kind == "diag":
        p = [(k, k) for k in range(d)]
    elif kind == "row":
        r = rng.randrange(d); p = [(r, c) for c in range(d)]
    elif kind == "corner":
        p = [(0, d - 1)]
    elif kind == "gap":
        r = rng.randrange(d); p = [(a, b) for a in range(d) for b in range(a, d) if a != r and b != r]
    elif kind == "full":
        p = [(a, b) for a in range(d) for b in range(a, d)]
    elif kind == "off":
        p = [(a, b) for a in range(d) for b in range(a + 1, d) if rng.random() < 0.6]
    elif kind == "rand":
        p = [(rng.randrange(d), rng.randrange(d)) for _ in range(rng.randint(0, 3 * d))]
    rng.shuffle(p)
    return [(b, a) if rng.random() < 0.5 else (a, b) for a, b in p]


KINDS = ["none", "last", "first", "diag", "row", "corner", "gap", "full", "off", "rand", "rand", "rand"]


def fill(rng, name, d, kind, weird=False):
    """operations that fill a new matrix"""
    ops = [["new", name, d]]
    if d == 0:
        return ops
    pos = positions(rng, d, kind)
    if weird:                                # each position once, so any bit pattern is exact
        seen, u = set(), []
        for a, b in pos:
            if (min(a, b), max(a, b)) not in seen:
                seen.add((min(a, b), max(a, b))); u.append((a, b))
        pos = u
    ent = [[a, b, rng.choice(WEIRD) if weird and rng.random() < 0.5 else hx(small(rng))] for a, b in pos]
    if rng.random() < 0.5:
        for e in ent:
            ops.append(["ins", name] + e)
    else:
        while ent:
            k = rng.randint(1, len(ent))
            ops.append(["grp", name, ent[:k]]); ent = ent[k:]
    return ops


def sparse_history(rng, exports):
    """random interleaving of all operations on several matrices"""
    ops, dims = [], {}
    names = ["m%d" % k for k in range(rng.randint(1, 4))]
    d0 = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 9, 16])
    for n in names:
        d = d0 if rng.random() < 0.8 else rng.choice([1, 2, 3, 6])
        ops += fill(rng, n, d, rng.choice(KINDS)); dims[n] = d
    for _ in range(rng.randint(4, 25)):
        n = rng.choice(sorted(dims)); d = dims[n]
        r = rng.random()
        if r < 0.35 and d:
            i, j = rng.randrange(d), rng.randrange(d)
            ops.append(["ins", n, i, j, hx(small(rng))])
            if rng.random() < 0.2:
                ops.append(["ins", n, j, i, hx(small(rng))])
        elif r < 0.5 and d:
            g = [[rng.randrange(d), rng.randrange(d), hx(small(rng))] for _ in range(rng.randint(0, 6))]
            if rng.random() < 0.3 and g:
                g += [[b, a, v] for a, b, v in g]
            ops.append(["grp", n, g])
        elif r < 0.56:
            i, j = rng.choice([(d, 0), (0, d), (d, d), (d + 1, 0), (d + 70000, d), (2000000000, 0)])
            ops.append(["ins", n, i, j, hx(1)])
        elif r < 0.58 and len(dims) > 1:
            bad = rng.choice([[d, 0, hx(1)], [0, d, hx(1)], [0, 1000000, hx(2)]])
            g = [[0, 0, hx(1)]] * rng.randint(0, 2) if d else []
            ops.append(["grp", n, g + [bad]]); del dims[n]
        elif r < 0.75 and len(dims) > 1:
            m = rng.choice([x for x in sorted(dims) if x != n])
            ops.append(["con", n, m])
            ops.append(["read", m])
        elif r < 0.83 and len(dims) > 1:
            m = rng.choice([x for x in sorted(dims) if x != n])
            ops.append(["cpy", n, m]); dims[n] = dims[m]
        elif r < 0.93:
            ops.append(["read", n])
        elif exports:
            ops.append(rng.choice([["dense", n], ["petsc", n, "f.dat", rng.choice(["ok", "matrix"])]]))
    for n in sorted(dims):
        ops.append(["read", n])
    return {"ops": ops}


def limits():
    S = [{"ops": [["newbig", x] for x in ("0", "1", "4294967294", "4294967295", "4294967296", "4294967297", "8589934592", "18446744073709551615")]}]
    big = 2147483647
    S.append({"ops": [["new", "m", big], ["ins", "m", big - 1, big - 1, hx(2)], ["ins", "m", 0, big - 1, hx(3)], ["ins", "m", big - 1, 0, hx(4)],
                      ["ins", "m", 65536, 131072, hx(5)], ["grp", "m", [[65536, 65537, hx(1)], [131072, 65536, hx(1)], [0, 65536, hx(7)]]],
                      ["read", "m"], ["ins", "m", big, 0, hx(1)], ["new", "o", big], ["grp", "o", [[big - 1, 0, hx(1)], [70000, 70000, hx(1)]]],
                      ["con", "m", "o"], ["read", "m"], ["read", "o"]]})
    return S


def export_scn(rng, dmax, weird):
    d = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 11, dmax])
    ops = fill(rng, "a", d, rng.choice(KINDS), weird) + fill(rng, "b", d if rng.random() < 0.9 else max(1, d - 1), rng.choice(KINDS), weird)
    ops += [["read", "a"], ["dense", "a"], ["petsc", "a", "x.dat", "ok"], ["petsc", "a", "x.dat", "matrix"], ["pair", "a", "b", rng.choice(["p", "p_12345678", "run.1", "a_b"])],
            ["read", "a"], ["read", "b"]]
    return {"ops": ops}


def large(rng, exports, d=None):
    """long groups, rows of several hundred entries, sizes far beyond the others'"""
    d = d or rng.randint(320, 400)
    r = rng.randrange(d)
    row = [[r, c, hx(small(rng))] if rng.random() < .5 else [c, r, hx(small(rng))] for c in range(d)]
    rng.shuffle(row)
    some = [[rng.randrange(d), rng.randrange(d), hx(small(rng))] for _ in range(rng.randint(700, 1100))]
    ops = [["new", "a", d], ["grp", "a", some], ["new", "b", d], ["grp", "b", row + some[:200]], ["con", "a", "b"], ["read", "a"], ["read", "b"]]
    ops += [["ins", "a"] + e for e in row[:30]] + [["read", "a"]]
    if exports:
        ops += [["petsc", "a", "x.dat", rng.choice(["ok", "matrix"])], ["dense", "a"]]
    return {"ops": ops}


def wide_export(rng):
    """columns and rows beyond 65536"""
    d = rng.choice([65537, 66000, 70001])
    some = [[d - 1, d - 1, hx(3)], [0, d - 1, hx(2)], [65536, 65536, hx(5)], [0, 65536, hx(7)], [65535, 65536, hx(1)], [1, 0, hx(4)]]
    some += [[rng.randrange(d), rng.randrange(d), hx(small(rng))] for _ in range(8)]
    return {"ops": [["new", "a", d], ["grp", "a", some], ["petsc", "a", "x.dat", rng.choice(["ok", "matrix"])]]}


def full_device(rng):
    return {"ops": fill(rng, "a", 4, "full") + [["petsc", "a", "x.dat", "full"]] + fill(rng, "b", 60, "full") + [["petsc", "b", "y.dat", "full"], ["petsc", "a", "z.dat", "mfull"]]}


def par_scn(rng, nmax, dmax):
    d = rng.choice([1, 2, 3, 5, 8, dmax])
    ops = []
    if rng.random() < 0.5:
        ops.append(["gnew", "g", d])
    else:
        ops += fill(rng, "a", d, rng.choice(KINDS)) + fill(rng, "b", d, rng.choice(KINDS)) + [["gof", "g", "a", "b"]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 7, 16, 33, nmax])
        items, delays = [], []
        for _ in range(n):
            mk = lambda: [[rng.randrange(d), rng.randrange(d), hx(small(rng))] for _ in range(rng.choice([0, 1, 2, 5]))]
            items.append([mk(), mk()])
            delays.append(rng.choice([0, 0, 0, 50, 200, 1000]) if n < 40 else rng.choice([0, 0, 0, 0, 20]))
        ops.append(["par", "g", items, rng.choice([1, 1, 2, 2, 3, 4, 8, 16]), rng.choice(["vec", "map", "bridge", "fine", "chunks", "halves"]), delays])
        ops.append(["gread", "g"])
    return {"ops": ops}


# ------------------------------------------------------------------ dense pencils
from fractions import Fraction as F


def mat_entries(rng, M):
    out = []
    n = len(M)
    for a in range(n):
        for b in range(a, n):
            if M[a][b] != 0:
                assert float(M[a][b]) == M[a][b]
                out.append([a, b, hx(M[a][b])] if rng.random() < .5 else [b, a, hx(M[a][b])])
    rng.shuffle(out)
    return out


def mul(A, B):
    n = len(A)
    return [[sum(A[i][k] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def add(A, B, x=1, y=1):
    return [[x * p + y * q for p, q in zip(r, s)] for r, s in zip(A, B)]


def ident(n, c=1):
    return [[F(c) if i == j else F(0) for j in range(n)] for i in range(n)]


def sym(rng, n, lim=8, den=4, dens=.7):
    S = ident(n, 0)
    for i in range(n):
        for j in range(i, n):
            if rng.random() < dens:
                S[i][j] = S[j][i] = F(rng.randint(-lim, lim), den)
    return S


def commuting(rng, n):
    """symmetric A and positive definite B with AB = BA, and a lower bound of B's eigenvalues"""
    kind = rng.choice(["scalar", "diag", "poly", "poly", "rank1", "block", "toep", "spd"])
    if kind == "scalar":
        c = F(rng.choice([1, 1, 2, 5, 16]), rng.choice([1, 2, 4, 8]))
        return sym(rng, n, 16), ident(n, c), c
    if kind == "diag":
        a = [F(rng.randint(-200, 200), 8) for _ in range(n)]; b = [F(rng.randint(1, 60), 8) for _ in range(n)]
        return [[a[i] if i == j else F(0) for j in range(n)] for i in range(n)], [[b[i] if i == j else F(0) for j in range(n)] for i in range(n)], min(b)
    if kind == "poly":
        S = sym(rng, n, 3, 2)
        B = add(mul(S, S), ident(n, rng.choice([1, 2, 4])), F(1, rng.choice([1, 2, 4])))
        A = add(S, ident(n), rng.choice([1, -2, 3]), rng.choice([0, 1, -3]))
        if rng.random() < .3: A = add(A, mul(S, S), 1, F(1, 2))
        return A, B, F(1)
    if kind == "rank1":
        v = [F(rng.randint(-4, 4)) for _ in range(n)]
        P = [[x * y for y in v] for x in v]
        return add(ident(n), P, F(rng.randint(-20, 20), 4), F(rng.randint(-8, 8), 8)), add(ident(n), P, 2, F(rng.randint(0, 8), 16)), F(2)
    if kind == "block":
        k = max(1, n // 2)
        A, B = ident(n, 0), ident(n, 0)
        c = [F(rng.randint(1, 20), 4), F(rng.randint(1, 20), 4)]
        for lo, hi, x in ((0, k, c[0]), (k, n, c[1])):
            S = sym(rng, hi - lo, 12)
            for i in range(lo, hi):
                B[i][i] = x
                for j in range(lo, hi):
                    A[i][j] = S[i - lo][j - lo]
        return A, B, min(c)
    if kind == "toep":
        # stiffness and mass of a 1D chain on a uniform grid: both functions of the same shift matrix
        T = [[F(1) if abs(i - j) == 1 else F(0) for j in range(n)] for i in range(n)]
        return add(ident(n), T, 2, -1), add(ident(n), T, F(4), F(1)), F(2)
    S = sym(rng, n, 3, 2)
    return sym(rng, 0) if n == 0 else add(mul(S, S), ident(n), 1, F(1, 2)), ident(n, F(3, 2)), F(3, 2)


def eigenvalues(M):
    """of a symmetric matrix of floats (Jacobi)"""
    n = len(M)
    M = [[float(x) for x in r] for r in M]
    for _ in range(60):
        if sum(M[i][j] ** 2 for i in range(n) for j in range(n) if i != j) < 1e-22 * (1 + sum(M[i][i] ** 2 for i in range(n))): break
        for p in range(n):
            for q in range(p + 1, n):
                if M[p][q] == 0: continue
                th = (M[q][q] - M[p][p]) / (2 * M[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + (th * th + 1) ** .5)
                c = 1 / (t * t + 1) ** .5; sn = t * c
                for k in range(n):
                    a, b = M[k][p], M[k][q]
                    M[k][p], M[k][q] = c * a - sn * b, sn * a + c * b
                for k in range(n):
                    a, b = M[p][k], M[q][k]
                    M[p][k], M[q][k] = c * a - sn * b, sn * a + c * b
    return sorted(M[i][i] for i in range(n))


def simple(A, B):
    """are the eigenvalues of the (commuting) pencil well separated?"""
    n = len(A)
    # inverse(B) A by Gauss-Jordan on [B | A]
    G = [[float(x) for x in B[i]] + [float(x) for x in A[i]] for i in range(n)]
    for k in range(n):
        p = G[k][k]
        if abs(p) < 1e-9: return False
        G[k] = [x / p for x in G[k]]
        for r in range(n):
            if r != k and G[r][k]:
                f = G[r][k]
                G[r] = [x - f * y for x, y in zip(G[r], G[k])]
    ev = eigenvalues([r[n:] for r in G])
    top = max(1e-30, max(abs(x) for x in ev))
    return all(b - a > 1e-4 * top for a, b in zip(ev, ev[1:]))


def connected(A, B):
    n = len(A)
    seen, todo = {0}, [0]
    while todo:
        x = todo.pop()
        for y in range(n):
            if y not in seen and (A[x][y] != 0 or B[x][y] != 0):
                seen.add(y); todo.append(y)
    return len(seen) == n


def target(rng):
    r = rng.random()
    if r < .2: return 0.0
    if r < .75: return rng.uniform(-12, 12)
    if r < .9: return rng.randint(-12, 12) / 2.0
    return rng.choice([1e6, -1e6, 1e-9, 123456.789, -50.0, 80.0])


def solve_ev(rng, n):
    # nalgebra's SymmetricEigen loses accuracy for some matrices with
    # repeated eigenvalues or decoupled rows (see known_findings.txt)
    for _ in range(40):
        A, B, low = commuting(rng, n)
        if simple(A, B) and (n <= 3 or connected(A, B)): break
    else:
        A, B, low = [[F(i + 1) if i == j else F(0) for j in range(n)] for i in range(n)], ident(n), F(1)
    r = rng.random()
    if r < .15: A = add(A, A, F(1, 1024), 0) if r < .07 else add(A, A, 4096, 0)
    elif r < .25:                                        # eigenvalues of any size, down to the spurious ones
        A = add(A, A, F(1, 2 ** rng.choice([20, 30, 34, 36, 38, 40, 44, 48])), 0)
        top = max(abs(x) for row in A for x in row)
        return {"f": "solve", "n": [n, n], "a": mat_entries(rng, A), "b": mat_entries(rng, B), "t": hx(rng.choice([0.0, float(top) * rng.uniform(-1, 1), 1.0])), "low": hx(low)}
    return {"f": "solve", "n": [n, n], "a": mat_entries(rng, A), "b": mat_entries(rng, B), "t": hx(target(rng)), "low": hx(low)}


def bad_ev(rng):
    n = rng.choice([1, 2, 2, 3, 4, 6])
    A = sym(rng, n)
    kind = rng.choice(["indef", "neg", "zero", "semi", "hole", "only0"])
    B = ident(n)
    if kind == "indef":
        if n == 1: B = ident(1, -1)
        else: B[0][1] = B[1][0] = F(2)
    elif kind == "neg": B = ident(n, -2)
    elif kind == "zero": B = ident(n, 0)
    elif kind == "semi": B = [[F(1)] * n for _ in range(n)] if n > 1 else ident(1, 0)
    elif kind == "hole": B[n - 1][n - 1] = F(0)
    else: A = ident(n, 0); B = add(ident(n), ident(n, 1), 2, 1)
    return {"f": "solve", "n": [n, n], "a": mat_entries(rng, A), "b": mat_entries(rng, B), "t": hx(target(rng)), "low": hx(1)}


def norm_ev(rng):
    n = rng.choice([1, 2, 3, 5, 20])
    sc = rng.choice([1.0, 1e-5, 1e9, 1e100, 1e-100, 3.0])
    x = [rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)]) * sc for _ in range(n)]
    if all(v == 0 for v in x): x[rng.randrange(n)] = -sc
    return {"f": "norm", "v": hx(rng.uniform(-9, 9)), "x": [hx(v) for v in x]}


def diag_ev(rng, n, big=False):
    a = [[k, k, hx(rng.randint(-4000, 4000) / 8.0)] for k in range(n)]
    b = [[k, k, hx(rng.randint(8, 64) / 8.0)] for k in range(n)]
    return {"f": "solve", "n": [n, n], "a": a, "b": b, "t": hx(rng.uniform(-400, 400)), "low": hx(1)}


def near_tie(rng):
    """two eigenvalues at almost the same distance from the target"""
    n = rng.randint(2, 5)
    t, d = rng.randint(-40, 40) / 8, rng.choice([1, 2, 3, 4, 0.5])
    far = d * (1 + 2.0 ** -rng.choice([8, 16, 20, 23, 25, 26, 30, 32]))
    s = rng.choice([1, -1])
    ev = [t + s * d, t - s * far] + [t + rng.choice([1, -1]) * rng.randint(5, 9) for _ in range(n - 2)]
    rng.shuffle(ev)
    if rng.random() < .5:                                # the same eigenvalues, seen from rotated axes
        ev = ([x for k, x in enumerate(ev) if x not in ev[:k]] + [t + rng.choice([1, -1]) * (10 + k) for k in range(4)])[:4]   # all different
        rng.shuffle(ev)
        w = [rng.choice([1, -1]) for _ in ev]
        h = [[F((i == j) - F(x * y, 2)) for j, y in enumerate(w)] for i, x in enumerate(w)]
        A = [[sum(h[i][k] * F(ev[k]) * h[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
        c = rng.choice([1, 2, F(1, 4)])
        return {"f": "solve", "n": [4, 4], "a": mat_entries(rng, [[x * c for x in r] for r in A]), "b": mat_entries(rng, ident(4, c)), "t": hx(t), "low": hx(c)}
    b = [rng.choice([1, 1, 2, 4]) for _ in ev]
    return {"f": "solve", "n": [n, n], "a": [[k, k, hx(x * y)] for k, (x, y) in enumerate(zip(ev, b))], "b": [[k, k, hx(y)] for k, y in enumerate(b)], "t": hx(t), "low": hx(1)}


# pencils that do not commute: the solver takes the nonsymmetric inv(B) A for symmetric (see known_findings.txt)
V = [2, 2, -4, 3, 0, -4]
NONCOMMUTING = {
    "noncommuting-1": ([[1, 0], [0, 2]], [[2, 1], [1, 2]], 0.0),
    "noncommuting-2": ([[2, -1, 0], [-1, 2, -1], [0, -1, 2]], [[2, 0, 0], [0, 1, 0], [0, 0, 3]], 1.0),
    "noncommuting-3": ([[0, 1], [1, 0]], [[1, 0], [0, 4]], 0.5),
    # commuting, but with decoupled rows
    "decoupled-1": ([[8, 0, -2, 0, -1], [0, 2, 0, 0, 0], [-2, 0, 10, 0, -2], [0, 0, 0, 6, 0], [-1, 0, -2, 0, 3]],
                    [[6 * (i == j) for j in range(5)] for i in range(5)], -4.5),
    # commuting, but with a fivefold eigenvalue
    "repeated-1": ([[-F(3, 4) * (x * y + (i == j)) for j, y in enumerate(V)] for i, x in enumerate(V)],
                   [[F(3, 8) * x * y + 2 * (i == j) for j, y in enumerate(V)] for i, x in enumerate(V)], -5.0),
}


def noncommuting():
    rng = random.Random(0)
    return [{"sid": k, "ev": [{"f": "solve", "n": [len(A)] * 2, "a": mat_entries(rng, [[F(x) for x in r] for r in A]),
                               "b": mat_entries(rng, [[F(x) for x in r] for r in B]), "t": hx(t), "low": hx(1)}]}
            for k, (A, B, t) in sorted(NONCOMMUTING.items())]
