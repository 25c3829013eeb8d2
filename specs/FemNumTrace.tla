---------------------------- MODULE FemNumTrace ----------------------------
(* Judges numeric observations (small-letter views) made on mesh states that *)
(* the specification tracks along the recorded history: the mesh of the      *)
(* specification yields the exact numbers, the library's must be near them.  *)
EXTENDS FemMeshTrace, FemBasis

Eps(j) == Power(Rat(1, 2), j)
U == F64(Sess.ux)
Near(got, exp, size, j) == F64Finite(got) /\ AtMost(Abs(Sub(F64(got), exp)), Mul(Eps(j), size))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE
\* the interesting part of the expectation, only computed when reporting
NearSay(what, got, exp, size, j, ctx) ==
  IF Near(got, exp, size, j) THEN TRUE
  ELSE Say(what, [at |-> ctx, got |-> IF F64Finite(got) THEN Decimal(F64(got)) ELSE got, expected |-> Decimal(exp)]) /\ FALSE
AllIn(n, P(_)) == \A x \in 1..n : P(x)

\* ------------------------------------------------------------------ b: basis functions of a cell (C24)
NoKey(t, r) == r.res = "nokey" /\ (r.x \notin DOMAIN t.el \/ r.y \notin DOMAIN t.el)
CheckB1(t, r) ==
  IF NoKey(t, r) THEN TRUE
  ELSE IF r.res # "ok" THEN Ok("basis function", FALSE, <<r.x, r.y, r.res>>)
  ELSE
  LET y == IF r.y = "" THEN r.x ELSE r.y
      pl == Place(t, r.x, y)
      pt(q) == << Add(pl.c[1], Mul(pl.h[1], F64(r.pu[q[3] + 1]))), Add(pl.c[2], Mul(pl.h[2], F64(r.pv[q[4] + 1]))) >>
      J == <<JacX(t, r.x, U), JacY(t, r.x, U)>>
      I == <<Quot(1, J[1]), Quot(1, J[2])>>
      ps == <<F64(r.ps[1]), F64(r.ps[2])>>
      big == Mul(Add(I[1], I[2]), Power(Add(1, Add(Abs(ps[1]), Abs(ps[2]))), 2))
      c2(what, got, d, exp, q) ==     \* vector along direction d
        /\ NearSay(what, got[d], exp, Mul(big, 400 * (1 + q[1] * q[1]) * (1 + q[2] * q[2])), 42, <<r.x, r.y, q>>)
        /\ Ok(what \o " other component", Near(got[3 - d], 0, 1, 60), <<r.x, r.y, q, got>>)
      dv(what, got, a, b, q) ==    \* a pair of derivatives along one direction: documented as <<d/dv, d/du>> of the component times 1/J
        /\ NearSay(what \o "[0]", got[1], a, Mul(big, 400 * (1 + q[1] * q[1]) * (1 + q[2] * q[2])), 42, <<r.x, r.y, q>>)
        /\ NearSay(what \o "[1]", got[2], b, Mul(big, 400 * (1 + q[1] * q[1]) * (1 + q[2] * q[2])), 42, <<r.x, r.y, q>>)
      rel(what, got, exp, q) == NearSay(what, got, exp, Add(Abs(exp), Eps(200)), 30, <<r.x, r.y, q>>)
  IN
  /\ AllIn(Len(r.at), LAMBDA x :
       LET q == r.at[x]  v == r.vals[x]  p == pt(q)  o == <<q[1], q[2]>>
           a == NT(o, p, "U")  b == NT(o, p, "V")
       IN
       /\ c2("f_u", v.fu, 1, Mul(I[1], a.v), q)
       /\ c2("f_v", v.fv, 2, Mul(I[2], b.v), q)
       /\ dv("f_u_d1", v.fu1, Mul(Mul(I[1], a.dv), ps[1]), 0, q)
       /\ dv("f_v_d1", v.fv1, 0, Mul(Mul(I[2], b.du), ps[2]), q)
       /\ dv("f_u_dd", v.fuv, Mul(Mul(I[1], a.duv), Mul(ps[1], ps[2])), 0, q)
       /\ dv("f_v_dd", v.fvv, 0, Mul(Mul(I[2], b.duv), Mul(ps[1], ps[2])), q)
       /\ r.d2 =>
          /\ dv("f_u_d2", v.fu2, Mul(Mul(I[1], a.dvv), Power(ps[1], 2)), 0, q)
          /\ dv("f_v_d2", v.fv2, 0, Mul(Mul(I[2], b.duu), Power(ps[2], 2)), q)
       /\ rel("jacobian u", v.jac[1], J[1], q) /\ rel("jacobian v", v.jac[4], J[2], q)
       /\ Ok("jacobian off-diagonal", Near(v.jac[2], 0, J[1], 40) /\ Near(v.jac[3], 0, J[2], 40), q)
       /\ rel("inverse jacobian u", v.inv[1], I[1], q) /\ rel("inverse jacobian v", v.inv[4], I[2], q)
       /\ Ok("inverse jacobian off-diagonal", Near(v.inv[2], 0, I[1], 40) /\ Near(v.inv[3], 0, I[2], 40), q)
       /\ rel("determinant", v.det, Mul(J[1], J[2]), q) /\ rel("sample_scale", v.smp, Mul(J[1], J[2]), q)
       /\ rel("uv_ratio", v.uv, Quot(J[1], J[2]), q) /\ rel("vu_ratio", v.vu, Quot(J[2], J[1]), q)
       /\ rel("max_uv_ratio", v.mx, Max2(Quot(J[1], J[2]), Quot(J[2], J[1])), q))
  /\ LET h == pl.h
         exp == <<h[1], h[2], Mul(h[1], h[2]), h[1], h[2], h[1], h[1], h[2], h[2], h[1], h[2]>>
     IN AllIn(11, LAMBDA x : NearSay("scale", r.sc[x], exp[x], exp[x], 48, <<r.x, r.y, x>>))

\* ------------------------------------------------------------------ i: single integrals (C14)
MatReal(t, k) == LET mt == MatOf(t.el[k].root) IN [eps |-> Rat(mt[1], 8), mu |-> Rat(mt[3], 8)]

\* v: <<full, face, edges, kind, face and edges of unwrap_parts>>
NoParts(what, v, exp, size, c) ==
  /\ NearSay(what, v[1], exp, size, 34, c)
  /\ Ok(what \o ": accessors of a full result", v[2] = v[1] /\ \A e \in 1..4 : Same(F64(v[3][e]), 0), c)
ByParts(P, Q, pOnX, v, im, tb, pl, c) ==
  LET face == Mul(im, FaceTerm(P, Q, pOnX, tb))  fs == Mul(Abs(im), FaceSize(P, Q, pOnX, tb))
      edge == [e \in 1..4 |-> Mul(im, EdgeTerm(P, Q, pOnX, e - 1, tb, pl))]
      es == [e \in 1..4 |-> Mul(Abs(im), EdgeSize(P, Q, pOnX, e - 1, tb))]
      whole == Mul(im, Whole(P, Q, pOnX, tb))
      all == Add(fs, Total(es))
  IN /\ NearSay(IF pOnX THEN "by parts, sum" ELSE "by parts, sum (swapped)", v[1], whole, all, 34, c)
     /\ IF v[4] = "full"      \* allowed when nothing comes from the edges
        THEN /\ NoParts("by parts", v, face, all, c)
             /\ Ok("edge terms missing", \A e \in 1..4 : Same(edge[e], 0), c)
        ELSE /\ NearSay(IF pOnX THEN "face term" ELSE "face term (swapped)", v[2], face, fs, 34, c)
             /\ AllIn(4, LAMBDA e : NearSay(IF pOnX THEN "edge term" ELSE "edge term (swapped)", v[3][e], edge[e], es[e], 34, [c |-> c, edge |-> e - 1]))
             /\ Ok("unwrap_parts", v[5] = v[2] /\ v[6] = v[3], c)

CheckI1(t, r) ==
  IF NoKey(t, r) THEN TRUE
  ELSE IF r.res # "ok" THEN Ok("integrals", FALSE, <<r.x, r.y, r.res>>)
  ELSE
  LET n == MaxOf(r.ord[1], r.ord[2])
      tb == PairTables(t, r.x, r.y, n, U)
      mt == MatReal(t, r.x)
      im == Quot(1, mt.mu)
  IN AllIn(Len(r.f), LAMBDA x :
       LET q == r.f[x]  v == r.vals[x]
           F == <<q[1], q[2], q[3]>>  G == <<q[4], q[5], q[6]>>
           cc == Mul(im, CurlInt(F, G, tb))  l2 == Mul(mt.eps, DotInt(F, G, tb))
           cs == Mul(Abs(im), CurlSize(F, G, tb))  ls == Mul(Abs(mt.eps), DotSize(F, G, tb))
           c == [x |-> r.x, y |-> r.y, f |-> F, g |-> G, n |-> r.n]
           pl == Place(t, r.x, r.y)
       IN IF r.parts
          THEN /\ ByParts(F, G, TRUE, v[1], im, tb, pl, c) /\ NoParts("L2 by parts", v[2], l2, ls, c)
               /\ ByParts(G, F, FALSE, v[3], im, tb, pl, c) /\ NoParts("L2 by parts swapped", v[4], l2, ls, c)
          ELSE /\ NearSay("curl-curl", v[1], cc, cs, 34, c) /\ NearSay("L2", v[2], l2, ls, 34, c)
               /\ NearSay("curl-curl swapped", v[3], cc, cs, 34, c) /\ NearSay("L2 swapped", v[4], l2, ls, 34, c))

\* ------------------------------------------------------------------ g, m: assembled matrices (C13, C14, C25)
Overlap(anc, a, b) == a = b \/ a \in anc[b] \/ b \in anc[a]
AncMap(t) == [k \in DOMAIN t.el |-> Range(Ancestors(t, k))]

\* expected outcome of an assembly request
AsmOutcome(t, r) ==
  IF r.setcc = "HDiv" THEN "continuity"
  ELSE IF Cardinality(Dofs(t)) = 0 THEN "empty"
  ELSE IF Len(r.n) = 2 /\ (r.n[1] < 4 \/ r.n[2] < 4) THEN "glq"
  ELSE "ok"

\* sum of V(f, g) over overlapping function pairs of the dofs a and b (the functions of one dof never overlap each other)
PairSum(anc, fa, fb, V(_, _), zero, plus(_, _)) ==
  FoldLeft(LAMBDA acc, f : FoldLeft(LAMBDA ac2, g : IF Overlap(anc, f[1], g[1]) THEN plus(ac2, V(f, g)) ELSE ac2, acc, fb), zero, fa)
DiagSum(fa, V(_, _), zero, plus(_, _)) == FoldLeft(LAMBDA acc, f : plus(acc, V(f, f)), zero, fa)

Code(f) == 1 + (IF f[2] = "U" THEN 0 ELSE 1) + 3 * f[3] + 64 * f[4]
\* placement of the smaller cell in the larger one's parametric square, times 65536
W65536(t, x, y) == LET r == RelRange(t, x, y)  z == ParaUnit \div 32768 IN
                  <<(r[1] + r[3]) \div z, (r[2] + r[4]) \div z, (r[3] - r[1]) \div z, (r[4] - r[2]) \div z>>
Small(anc, f, g) == IF f[1] \in anc[g[1]] THEN <<f, g>> ELSE IF g[1] \in anc[f[1]] THEN <<g, f>> ELSE <<f, g>>
WMap(t, anc) == [y \in DOMAIN t.el |-> [x \in anc[y] \cup {y} |-> W65536(t, x, y)]]
KernelA(t, anc, wm, f, g) ==
  LET p == Small(anc, f, g)  w == wm[p[2][1]][p[1][1]] IN
  Code(f) * Code(g) + 3 * w[1] + 5 * w[2] + 7 * w[3] + 11 * w[4] + 13 * MatOf(t.el[f[1]].root)[3]
KernelB(t, anc, wm, f, g) ==
  LET p == Small(anc, f, g)  w == wm[p[2][1]][p[1][1]] IN
  2 * (Code(f) + Code(g)) + 17 * w[1] + 19 * w[2] + 23 * w[3] + 29 * w[4] + 31 * MatOf(t.el[f[1]].root)[1] + 1

MatrixShape(what, n, log, cnt, dim) ==
  /\ Ok(what \o " dimension", dim = n, dim)
  /\ Ok(what \o " positions", \A x \in DOMAIN log : 0 <= log[x][1] /\ log[x][1] <= log[x][2] /\ log[x][2] < n, n)
  /\ Ok(what \o " one entry per position", Cardinality({<<log[x][1], log[x][2]>> : x \in DOMAIN log}) = Len(log), Len(log))

EntryMap(n, log) ==     \* row -> column -> hex
  LET rows == [r \in 0..(n - 1) |-> SelectSeq(log, LAMBDA e : e[1] = r)] IN
  [r \in 0..(n - 1) |-> [c \in {rows[r][x][2] : x \in DOMAIN rows[r]} |-> (CHOOSE x \in DOMAIN rows[r] : rows[r][x][2] = c)]]

Zero64 == "0000000000000000"
CheckG1(t, r) ==
  LET want == AsmOutcome(t, r) IN
  /\ Equal("assembly outcome", r.res, want)
  /\ want = "ok" =>
     LET n == Len(r.dofs)
         anc == TLCEval(AncMap(t))  wm == TLCEval(WMap(t, anc))
         A(f, g) == KernelA(t, anc, wm, f, g)
         B(f, g) == KernelB(t, anc, wm, f, g)
         plus(x, y) == x + y
         expA(a, b) == IF a = b THEN DiagSum(r.dofs[a], A, 0, plus) ELSE PairSum(anc, r.dofs[a], r.dofs[b], A, 0, plus)
         expB(a, b) == IF a = b THEN DiagSum(r.dofs[a], B, 0, plus) ELSE PairSum(anc, r.dofs[a], r.dofs[b], B, 0, plus)
         val(log, ix, row, col) == IF col \in DOMAIN ix[row] THEN F64(log[row][ix[row][col]][3]) ELSE 0
         rowsA == TLCEval([x \in 0..(n - 1) |-> SelectSeq(r.A, LAMBDA e : e[1] = x)])
         rowsB == TLCEval([x \in 0..(n - 1) |-> SelectSeq(r.B, LAMBDA e : e[1] = x)])
         ixA == TLCEval(EntryMap(n, r.A))  ixB == TLCEval(EntryMap(n, r.B))
     IN
     /\ MatrixShape("A", n, r.A, r.na, r.dim[1]) /\ MatrixShape("B", n, r.B, r.nb, r.dim[2])
     /\ Len(r.n) = 2 => Equal("quadrature grid", SeqSet(r.nq), {r.n})
     /\ \A a \in 1..n : \A b \in a..n :
          LET ga == val(rowsA, ixA, a - 1, b - 1)  gb == val(rowsB, ixB, a - 1, b - 1) IN
          /\ LET x == expA(a, b) IN Ok("A entry", Same(ga, x), [p |-> r.dofs[a], q |-> r.dofs[b], got |-> Decimal(ga), expected |-> x])
          /\ LET x == expB(a, b) IN Ok("B entry", Same(gb, x), [p |-> r.dofs[a], q |-> r.dofs[b], got |-> Decimal(gb), expected |-> x])

CheckM1(t, r) ==
  LET want == AsmOutcome(t, r) IN
  /\ Equal("assembly outcome", r.res, want)
  /\ want = "ok" =>
     LET n == Len(r.dofs)
         anc == TLCEval(AncMap(t))
         mo == MaxOrders(t)
         deg == MaxOf(mo[1], mo[2])
         tbs == TLCEval([y \in DOMAIN t.el |-> [x \in anc[y] \cup {y} |-> PairTables(t, x, y, deg, U)]])
         mats == TLCEval([k \in DOMAIN t.el |-> LET mt == MatReal(t, k) IN [eps |-> mt.eps, im |-> Quot(1, mt.mu)]])
         tail(f) == <<f[2], f[3], f[4]>>
         both(f, g) == LET p == Small(anc, f, g)  tb == tbs[p[2][1]][p[1][1]]  mt == mats[f[1]]
                           F == tail(p[1])  G == tail(p[2]) IN
                       [cc |-> Mul(mt.im, CurlInt(F, G, tb)), l2 |-> Mul(mt.eps, DotInt(F, G, tb)),
                        cs |-> Mul(Abs(mt.im), CurlSize(F, G, tb)), ls |-> Mul(Abs(mt.eps), DotSize(F, G, tb))]
         plus(x, y) == [cc |-> Add(x.cc, y.cc), l2 |-> Add(x.l2, y.l2), cs |-> Add(x.cs, y.cs), ls |-> Add(x.ls, y.ls)]
         zero == [cc |-> 0, l2 |-> 0, cs |-> 0, ls |-> 0]
         exp(a, b) == IF a = b THEN DiagSum(r.dofs[a], both, zero, plus) ELSE PairSum(anc, r.dofs[a], r.dofs[b], both, zero, plus)
         rowsA == TLCEval([x \in 0..(n - 1) |-> SelectSeq(r.A, LAMBDA e : e[1] = x)])
         rowsB == TLCEval([x \in 0..(n - 1) |-> SelectSeq(r.B, LAMBDA e : e[1] = x)])
         ixA == TLCEval(EntryMap(n, r.A))  ixB == TLCEval(EntryMap(n, r.B))
         val(log, ix, row, col) == IF col \in DOMAIN ix[row] THEN log[row][ix[row][col]][3] ELSE Zero64
     IN
     /\ MatrixShape("A", n, r.A, r.na, r.dim[1]) /\ MatrixShape("B", n, r.B, r.nb, r.dim[2])
     /\ \A a \in 1..n : \A b \in a..n :
          LET x == exp(a, b)  c == [p |-> r.dofs[a], q |-> r.dofs[b]] IN
          /\ NearSay("curl-curl entry", val(rowsA, ixA, a - 1, b - 1), x.cc, x.cs, 34, c)
          /\ NearSay("L2 entry", val(rowsB, ixB, a - 1, b - 1), x.l2, x.ls, 34, c)

\* ------------------------------------------------------------------ t: tangential traces (C11)
TraceOf(q, d, n) == LET h == {x \in DOMAIN q : q[x].d = d} IN
                    IF h = {} THEN [x \in 1..n |-> Zero64] ELSE q[CHOOSE x \in h : TRUE].v
CheckT(t, r) ==
  IF r.res # "ok" THEN Ok("traces", FALSE, r.res)
  ELSE
  /\ SameSet("interfaces", [x \in DOMAIN r.list |-> [l |-> r.list[x].l, r |-> r.list[x].r, dir |-> r.list[x].dir, s |-> r.list[x].s]], Stretches(t))
  /\ \A x \in DOMAIN r.list :
       LET e == r.list[x]
           n == Len(r.at)
           ds == {e.L[y].d : y \in DOMAIN e.L} \cup {e.R[y].d : y \in DOMAIN e.R}
           jac(k) == IF e.dir = "U" THEN JacX(t, k, U) ELSE JacY(t, k, U)
           size == Add(Quot(1, jac(e.l)), IF e.r = "" THEN 0 ELSE Quot(1, jac(e.r)))
       IN \A d \in ds :
            LET a == TraceOf(e.L, d, n)  b == TraceOf(e.R, d, n) IN
            \A y \in 1..n :
               IF F64Finite(a[y]) /\ F64Finite(b[y]) /\ AtMost(Abs(Sub(F64(a[y]), F64(b[y]))), Mul(Eps(36), size)) THEN TRUE
               ELSE Say("tangential jump", [interface |-> <<e.l, e.r, e.dir, e.s>>, dof |-> r.dofs[d + 1], sample |-> y,
                                            left |-> Decimal(F64(a[y])), right |-> Decimal(F64(b[y]))]) /\ FALSE

\* ------------------------------------------------------------------ f: fields and VTK files (C20, C21)
\* a quantity: val[leaf][mm][n] exact, err = bound of the rounding error made so far, mag = bound of the magnitude
Grid(lo, hi, n) == [x \in 1..n |-> Add(lo, Mul(Sub(hi, lo), Rat(x - 1, n - 1)))]
UnitGrid(n) == Grid(Rat(-1, 1), Rat(1, 1), n)

\* X (c = 1) or Y (c = 2) field: sum over the functions of a leaf and its ancestors
FieldQ(t, r, sol, c) ==
  LET dir == IF c = 1 THEN "U" ELSE "V"
      leaves == Leaves(t)
      mo == MaxOrders(t)
      funs == TLCEval(FoldLeft(LAMBDA acc, d : acc \o [x \in DOMAIN r.dofs[d] |-> [f |-> r.dofs[d][x], c |-> sol[d]]], <<>>,
                       [d \in 1..Len(r.dofs) |-> d]))
      at == TLCEval([k \in DOMAIN t.el |-> SelectSeq(funs, LAMBDA z : z.f[1] = k /\ z.f[2] = dir)])
      tab(F(_, _), n, pts) == [ii \in 0..n |-> [mm \in DOMAIN pts |-> F(ii, pts[mm])]]
      table(a, l) ==
        LET p == Place(t, a, l)
            us == TLCEval([mm \in 1..r.den[1] |-> Add(p.c[1], Mul(p.h[1], UnitGrid(r.den[1])[mm]))])
            vs == TLCEval([mm \in 1..r.den[2] |-> Add(p.c[2], Mul(p.h[2], UnitGrid(r.den[2])[mm]))])
        IN IF c = 1 THEN <<TLCEval(tab(NormFn, mo[1], us)), TLCEval(tab(TangFn, mo[2], vs))>>
           ELSE <<TLCEval(tab(TangFn, mo[1], us)), TLCEval(tab(NormFn, mo[2], vs))>>
      part(a, l) ==
        LET tb == TLCEval(table(a, l))  j == IF c = 1 THEN JacX(t, a, U) ELSE JacY(t, a, U) IN
        [mm \in 1..r.den[1] |-> [n \in 1..r.den[2] |->
          Quot(Total([z \in DOMAIN at[a] |-> Mul(at[a][z].c, Mul(tb[1][at[a][z].f[3]][mm], tb[2][at[a][z].f[4]][n]))]), j)]]
      line(l) == <<l>> \o Ancestors(t, l)
      val(l) == FoldLeft(LAMBDA acc, a : LET q == TLCEval(part(a, l)) IN
                   TLCEval([mm \in 1..r.den[1] |-> [n \in 1..r.den[2] |-> Add(acc[mm][n], q[mm][n])]]),
                   [mm \in 1..r.den[1] |-> [n \in 1..r.den[2] |-> 0]], line(l))
      big == Total([d \in 1..Len(r.dofs) |-> Mul(Abs(sol[d]),
                Total([x \in DOMAIN r.dofs[d] |-> LET k == r.dofs[d][x][1] IN Quot(4, IF c = 1 THEN JacX(t, k, U) ELSE JacY(t, k, U))]))])
  IN [val |-> TLCEval([l \in leaves |-> val(l)]), err |-> Mul(Eps(38), Add(1, big)), mag |-> Add(1, big)]

Op1(op, x) == CASE op = "abs" -> Abs(x) [] op = "neg" -> Opp(x) [] op = "sq" -> Mul(x, x) [] op = "twice" -> Mul(2, x)
                [] op = "inc" -> Add(x, 1) [] op = "tiny" -> Mul(Eps(28), x) [] OTHER -> x
Op2(op, x, y) == CASE op = "add" -> Add(x, y) [] op = "sub" -> Sub(x, y) [] op = "mul" -> Mul(x, y)
                   [] op = "left" -> x [] op = "right" -> y [] OTHER -> Sub(Mul(2, x), Mul(3, y))
Pointwise1(a, F(_)) == TLCEval([l \in DOMAIN a |-> [mm \in DOMAIN a[l] |-> [n \in DOMAIN a[l][mm] |-> F(a[l][mm][n])]]])
Pointwise2(a, b, F(_, _)) == TLCEval([l \in DOMAIN a |-> [mm \in DOMAIN a[l] |-> [n \in DOMAIN a[l][mm] |-> F(a[l][mm][n], b[l][mm][n])]]])
Map1(q, op) ==
  LET F(x) == Op1(op, x) IN
  [val |-> Pointwise1(q.val, F),
   err |-> IF op = "sq" THEN Mul(Mul(4, q.mag), q.err) ELSE IF op = "tiny" THEN Mul(Eps(27), q.err) ELSE Mul(2, q.err),
   mag |-> IF op = "sq" THEN Mul(q.mag, q.mag) ELSE Add(1, Mul(2, q.mag))]
Map2(a, b, op) ==
  LET F(x, y) == Op2(op, x, y) IN
  [val |-> Pointwise2(a.val, b.val, F),
   err |-> IF op = "mul" THEN Mul(2, Add(Mul(a.mag, b.err), Mul(b.mag, a.err))) ELSE Mul(4, Add(a.err, b.err)),
   mag |-> IF op = "mul" THEN Mul(a.mag, b.mag) ELSE Mul(3, Add(a.mag, b.mag))]

\* ---------------- the VTK file as tokens
Num(tok) == IF IsDecimal(tok) THEN FromDecimal(tok) ELSE Rat(-999999999, 1)
IntAt(T, p) == IF p <= Len(T) /\ IsDecimal(T[p]) THEN AsInt(FromDecimal(T[p])) ELSE -1
VtkOK(t, r, T, names, qs) ==
  LET nx == r.den[1]  ny == r.den[2]  per == nx * ny
      leaves == Leaves(t)
      np == per * Cardinality(leaves)
      nc == (nx - 1) * (ny - 1) * Cardinality(leaves)
      pc == 6 + 3 * np            \* position before CELLS
      pt == pc + 3 + 5 * nc       \* before CELL_TYPES
      pd == pt + 2 + nc           \* before POINT_DATA
      pq == pd + 2                \* before the first quantity
      per_q == 6 + np
  IN
  /\ Ok("vtk header", Len(T) >= 6 /\ SubSeq(T, 1, 3) = <<"ASCII", "DATASET", "UNSTRUCTURED_GRID">>, SubSeq(T, 1, 6))
  /\ Ok("vtk points section", T[4] = "POINTS" /\ IntAt(T, 5) = np /\ T[6] \in {"double", "float"}, SubSeq(T, 4, 6))
  /\ Ok("vtk length", Len(T) = pq + per_q * Len(names), [len |-> Len(T), expected |-> pq + per_q * Len(names)])
  /\ Ok("vtk cells section", T[pc + 1] = "CELLS" /\ IntAt(T, pc + 2) = nc /\ IntAt(T, pc + 3) = 5 * nc, SubSeq(T, pc + 1, pc + 3))
  /\ Ok("vtk cell types section", T[pt + 1] = "CELL_TYPES" /\ IntAt(T, pt + 2) = nc /\ \A x \in (pt + 3)..pd : T[x] = "9", SubSeq(T, pt + 1, pt + 3))
  /\ Ok("vtk data section", T[pd + 1] = "POINT_DATA" /\ IntAt(T, pd + 2) = np, SubSeq(T, pd + 1, pd + 2))
  /\ LET P == TLCEval([x \in 0..(np - 1) |-> <<Num(T[7 + 3 * x]), Num(T[8 + 3 * x]), Num(T[9 + 3 * x])>>])
          blocks == Cardinality(leaves)
          fuzz(k) == Add(Rat(1, 1000000000), Mul(Eps(30), Mul(Add(Abs(t.el[k].rect[1]), Add(Abs(t.el[k].rect[2]), Add(Abs(t.el[k].rect[3]), Abs(t.el[k].rect[4])))), U)))
          gridOf == TLCEval([k \in leaves |-> LET q == t.el[k].rect IN
                      <<Grid(Mul(q[1], U), Mul(q[3], U), nx), Grid(Mul(q[2], U), Mul(q[4], U), ny), fuzz(k)>>])
          near(k, p, x, y) == AtMost(Abs(Sub(p[1], gridOf[k][1][x])), gridOf[k][3]) /\ AtMost(Abs(Sub(p[2], gridOf[k][2][y])), gridOf[k][3])
          \* blocks of the file belong to leaves: the leaf whose grid contains all points of the block
          home(b) == {k \in leaves : \A z \in 0..(per - 1) : \E x \in 1..nx, y \in 1..ny : near(k, P[b * per + z], x, y)}
          homes == TLCEval([b \in 0..(blocks - 1) |-> home(b)])
      IN
      /\ Ok("vtk points of every unrefined cell", (\A b \in DOMAIN homes : Cardinality(homes[b]) = 1) /\ UNION Range(homes) = leaves, homes)
      /\ Ok("vtk points lie in the plane", \A x \in DOMAIN P : Sign(P[x][3]) = 0, "z")
      /\ LET of == TLCEval([b \in DOMAIN homes |-> CHOOSE k \in homes[b] : TRUE])
              spot == TLCEval([x \in 0..(np - 1) |-> LET k == of[x \div per] IN
                         CHOOSE q \in (1..nx) \X (1..ny) : near(k, P[x], q[1], q[2])])
              quad(z) == <<IntAt(T, pc + 5 + 5 * z), IntAt(T, pc + 6 + 5 * z), IntAt(T, pc + 7 + 5 * z), IntAt(T, pc + 8 + 5 * z)>>
              quads == TLCEval([z \in 0..(nc - 1) |-> quad(z)])
              corner(z) == LET q == quads[z] IN <<of[q[1] \div per], {spot[q[x]] : x \in 1..4}>>
              adj(a, b) == (a[1] = b[1] /\ (a[2] = b[2] + 1 \/ b[2] = a[2] + 1)) \/ (a[2] = b[2] /\ (a[1] = b[1] + 1 \/ b[1] = a[1] + 1))
          IN
          /\ Ok("vtk points of one cell are different", \A b \in DOMAIN homes : Cardinality({spot[b * per + z] : z \in 0..(per - 1)}) = per, "repeated")
          /\ \A z \in 0..(nc - 1) :
               LET q == quads[z] IN
               /\ Ok("vtk cell size", IntAt(T, pc + 4 + 5 * z) = 4, z)
               /\ Ok("vtk cell points exist", \A x \in 1..4 : 0 <= q[x] /\ q[x] < np, q)
               /\ Ok("vtk cell is a small quadrilateral", q[1] \div per = q[2] \div per /\ q[2] \div per = q[3] \div per /\ q[3] \div per = q[4] \div per
                        /\ adj(spot[q[1]], spot[q[2]]) /\ adj(spot[q[2]], spot[q[3]]) /\ adj(spot[q[3]], spot[q[4]]) /\ adj(spot[q[4]], spot[q[1]])
                        /\ Cardinality({q[x] : x \in 1..4}) = 4, [cell |-> q, at |-> [x \in 1..4 |-> IF q[x] \in DOMAIN spot THEN spot[q[x]] ELSE <<>>]])
          /\ Ok("vtk cells cover every grid square once", Cardinality({corner(z) : z \in 0..(nc - 1)}) = nc, "repeated")
          /\ LET nameAt(x) == T[pq + per_q * (x - 1) + 2] IN
             /\ Ok("vtk quantities", \A x \in 1..Len(names) : LET p == pq + per_q * (x - 1) IN
                      T[p + 1] = "SCALARS" /\ T[p + 3] \in {"double", "float"} /\ T[p + 4] = "1" /\ T[p + 5] = "LOOKUP_TABLE" /\ T[p + 6] = "default",
                   [x \in 1..Len(names) |-> nameAt(x)])
             /\ SameSet("vtk quantity names", [x \in 1..Len(names) |-> nameAt(x)], SeqSet(names))
             /\ \A x \in 1..Len(names) :
                  LET p == pq + per_q * (x - 1) + 6  q == qs[nameAt(x)] IN
                  \A z \in 0..(np - 1) :
                    LET want == q.val[of[z \div per]][spot[z][1]][spot[z][2]]  got == T[p + 1 + z] IN
                    IF IsDecimal(got) /\ AtMost(Abs(Sub(FromDecimal(got), want)), Add(q.err, Eps(40))) THEN TRUE
                    ELSE Say("value", [quantity |-> nameAt(x), cell |-> of[z \div per], point |-> spot[z], got |-> got, expected |-> Decimal(want)]) /\ FALSE

\* one event of the field space: new quantities, and whether the recorded outcome is right
FieldStep(t, r, st, e) ==
  LET qs == st.qs
      stay(c) == [qs |-> qs, ok |-> st.ok /\ c]
  IN
  CASE e.f = "xy" ->
       IF e.n # Len(r.dofs) THEN stay(Equal("solution of the wrong length", e.res, "err"))
       ELSE LET sol == [d \in 1..Len(r.dofs) |-> Rat(e.c[1 + ((d - 1) % Len(e.c))], 8)]
                nm == <<e.to \o "_x", e.to \o "_y">>
            IN IF e.res # "ok" THEN stay(Equal("xy_fields", e.res, "ok"))
               ELSE [qs |-> TLCEval((nm[1] :> FieldQ(t, r, sol, 1)) @@ (nm[2] :> FieldQ(t, r, sol, 2)) @@ qs),
                     ok |-> st.ok /\ Equal("names", e.names, nm)]
    [] e.f = "map" ->
       IF e.a \notin DOMAIN qs THEN stay(Equal("map of a missing quantity", e.res, "err"))
       ELSE IF e.res # "ok" THEN stay(Equal("map", e.res, "ok"))
       ELSE [qs |-> TLCEval((e.to :> Map1(qs[e.a], e.op)) @@ qs), ok |-> st.ok]
    [] e.f = "two" ->
       IF e.a \notin DOMAIN qs \/ e.b \notin DOMAIN qs THEN stay(Equal("expression of a missing quantity", e.res, "err"))
       ELSE IF e.res # "ok" THEN stay(Equal("expression", e.res, "ok"))
       ELSE [qs |-> TLCEval((e.to :> Map2(qs[e.a], qs[e.b], e.op)) @@ qs), ok |-> st.ok]
    [] e.f \in {"all", "some"} ->
       LET names == IF e.f = "all" THEN SetToSeq(DOMAIN qs) ELSE e.names IN
       IF ~(SeqSet(names) \subseteq DOMAIN qs) THEN stay(Equal("export of a missing quantity", e.res, "err") /\ Equal("file of a failed export", e.file, FALSE))
       ELSE stay(Equal("export to a full device, to a missing directory", e.lost, <<"err", "err">>) /\ Equal("export", e.res, "ok") /\ Ok("vtk version line", Len(e.head) > 0, e.head) /\ VtkOK(t, r, e.tok, names, qs))

CheckF1(t, r) ==
  IF r.res # "ok" THEN Ok("field space", FALSE, r.res)
  ELSE /\ SameSet("unrefined cells", r.shell, Leaves(t))
       /\ FoldLeft(LAMBDA st, e : IF st.ok THEN FieldStep(t, r, st, e) ELSE st, [qs |-> <<>>, ok |-> TRUE], r.do).ok

\* ------------------------------------------------------------------ dispatch
NumView(t, e, v) ==
  CASE v = "b" -> \A x \in DOMAIN e.b : CheckB1(t, e.b[x])
    [] v = "i" -> \A x \in DOMAIN e.i : CheckI1(t, e.i[x])
    [] v = "g" -> \A x \in DOMAIN e.g : CheckG1(t, e.g[x])
    [] v = "m" -> \A x \in DOMAIN e.m : CheckM1(t, e.m[x])
    [] v = "t" -> CheckT(t, e.t)
    [] v = "f" -> \A x \in DOMAIN e.f : CheckF1(t, e.f[x])
    [] OTHER -> MeshView(t, e, v)
=============================================================================
