----------------------------- MODULE FemBasis -----------------------------
(* The vector basis functions of a mesh state and their exact integrals.     *)
(*                                                                           *)
(* A cell X with rectangle <<x0,y0,x1,y1>> (integers, times the real number  *)
(* U) maps its parametric square [-1,1]^2 affinely, so its Jacobian is       *)
(* diagonal.  The functions are                                              *)
(*   F_u(i,j) = (1/Jx) N_i(u) T_j(v) x^      F_v(i,j) = (1/Jy) T_i(u) N_j(v) y^ *)
(* Over a descendant Y the parametric point of X is c + h s, where s is the  *)
(* parametric point of Y.                                                    *)
EXTENDS FemMesh, FemQuad

\* ------------------------------------------------------------ geometry in real numbers
JacX(t, k, U) == Quot(Mul(Width(t, k), U), 2)
JacY(t, k, U) == Quot(Mul(Height(t, k), U), 2)

IsWithin(t, x, y) == x = y \/ (\E a \in Range(Ancestors(t, y)) : a = x)

\* Y's range inside X, exactly: locations below X
RelRange(t, x, y) == ParaRange(SubSeq(t.el[y].path, Len(t.el[x].path) + 1, Len(t.el[y].path)))
\* <<centre, half width>> in X's parametric space, per direction
Place(t, x, y) ==
  LET r == RelRange(t, x, y) IN
  [c |-> <<Rat(r[1] + r[3], 2 * ParaUnit), Rat(r[2] + r[4], 2 * ParaUnit)>>,
   h |-> <<Rat(r[3] - r[1], 2 * ParaUnit), Rat(r[4] - r[2], 2 * ParaUnit)>>]

\* ------------------------------------------------------------ point values
\* value, first and second derivatives in (u, v) of the scalar factor of a function
NT(o, p, f) ==   \* o = <<i, j>>, p = <<u, v>>; f = "U": N_i T_j, "V": T_i N_j
  LET a(d) == IF f = "U" THEN (IF d = 0 THEN NormFn(o[1], p[1]) ELSE IF d = 1 THEN NormD1(o[1], p[1]) ELSE NormD2(o[1], p[1]))
                         ELSE (IF d = 0 THEN TangFn(o[1], p[1]) ELSE IF d = 1 THEN TangD1(o[1], p[1]) ELSE TangD2(o[1], p[1]))
      b(d) == IF f = "V" THEN (IF d = 0 THEN NormFn(o[2], p[2]) ELSE IF d = 1 THEN NormD1(o[2], p[2]) ELSE NormD2(o[2], p[2]))
                         ELSE (IF d = 0 THEN TangFn(o[2], p[2]) ELSE IF d = 1 THEN TangD1(o[2], p[2]) ELSE TangD2(o[2], p[2]))
  IN [v |-> Mul(a(0), b(0)), dv |-> Mul(a(0), b(1)), du |-> Mul(a(1), b(0)),
      dvv |-> Mul(a(0), b(2)), duu |-> Mul(a(2), b(0)), duv |-> Mul(a(1), b(1))]

\* the non-zero component of function f of cell k at the parametric point p of k
FieldAt(t, k, f, o, p, U) ==
  IF f = "U" THEN Quot(Mul(NormFn(o[1], p[1]), TangFn(o[2], p[2])), JacX(t, k, U))
             ELSE Quot(Mul(TangFn(o[1], p[1]), NormFn(o[2], p[2])), JacY(t, k, U))

\* the same at real positions given in integer units (any rational), for points of the cell
ParaOf(t, k, x, y) ==
  LET r == t.el[k].rect IN
  << Quot(Sub(Mul(2, x), r[1] + r[3]), r[3] - r[1]), Quot(Sub(Mul(2, y), r[2] + r[4]), r[4] - r[2]) >>

\* the stretches where a leaf meets the leaf on its upper / right side, and the outer sides
MeetU(t, l, k) == t.el[l].rect[4] = t.el[k].rect[2] /\ t.el[l].rect[1] < t.el[k].rect[3] /\ t.el[k].rect[1] < t.el[l].rect[3]
MeetV(t, l, k) == t.el[l].rect[3] = t.el[k].rect[1] /\ t.el[l].rect[2] < t.el[k].rect[4] /\ t.el[k].rect[2] < t.el[l].rect[4]
Stretches(t) ==
  LET L == Leaves(t)
      R(k) == t.el[k].rect
      inner == UNION {{[l |-> a, r |-> b, dir |-> "U", s |-> <<MaxOf(R(a)[1], R(b)[1]), MinOf(R(a)[3], R(b)[3]), R(a)[4]>>]
                        : b \in {x \in L : MeetU(t, a, x)}} : a \in L} \cup
               UNION {{[l |-> a, r |-> b, dir |-> "V", s |-> <<MaxOf(R(a)[2], R(b)[2]), MinOf(R(a)[4], R(b)[4]), R(a)[3]>>]
                        : b \in {x \in L : MeetV(t, a, x)}} : a \in L}
      outer == UNION {
        (IF \E x \in L : MeetU(t, x, a) THEN {} ELSE {[l |-> a, r |-> "", dir |-> "U", s |-> <<R(a)[1], R(a)[3], R(a)[2]>>]}) \cup
        (IF \E x \in L : MeetU(t, a, x) THEN {} ELSE {[l |-> a, r |-> "", dir |-> "U", s |-> <<R(a)[1], R(a)[3], R(a)[4]>>]}) \cup
        (IF \E x \in L : MeetV(t, x, a) THEN {} ELSE {[l |-> a, r |-> "", dir |-> "V", s |-> <<R(a)[2], R(a)[4], R(a)[1]>>]}) \cup
        (IF \E x \in L : MeetV(t, a, x) THEN {} ELSE {[l |-> a, r |-> "", dir |-> "V", s |-> <<R(a)[2], R(a)[4], R(a)[3]>>]}) : a \in L}
  IN inner \cup outer

\* the tangential component of a degree of freedom (a set of functions <<cell, direction, i, j>>) at the point
\* p (in integer units) of leaf l, direction dir: what the functions of l and its ancestors add up to there
Trace(t, l, D, dir, p, U) ==
  LET F == SetToSeq({f \in D : f[2] = dir /\ IsWithin(t, f[1], l)}) IN
  Total([x \in DOMAIN F |-> FieldAt(t, F[x][1], dir, <<F[x][3], F[x][4]>>, ParaOf(t, F[x][1], p[1], p[2]), U)])

\* along every stretch the traces from both sides agree (vanish on the outer boundary): polynomials of degree
\* below the number of samples, so equality at the samples is equality
Continuous(t, D, n) ==
  \A w \in Stretches(t) :
    \A x \in 1..n :
      LET pos == Rat(w.s[1] * (n + 1 - x) + w.s[2] * x, n + 1)
          p == IF w.dir = "U" THEN <<pos, w.s[3]>> ELSE <<w.s[3], pos>>
          a == Trace(t, w.l, D, w.dir, p, 1)
          b == IF w.r = "" THEN 0 ELSE Trace(t, w.r, D, w.dir, p, 1)
      IN Same(a, b)

\* ------------------------------------------------------------ exact integrals
\* Mono[a+1][b+1] = integral over [-1,1] of (c + h s)^a s^b, for a <= n, b <= 2n - a + 2
MonoRow0(n) == [b \in 1..(2 * n + 3) |-> IF b % 2 = 1 THEN Rat(2, b) ELSE Rat(0, 1)]
MonoTable(c, h, n) ==
  FoldLeft(LAMBDA rows, a : Append(rows, LET r == rows[Len(rows)] IN
                                         TLCEval([b \in 1..(Len(r) - 1) |-> Add(Mul(c, r[b]), Mul(h, r[b + 1]))])),
           <<TLCEval(MonoRow0(n))>>, [a \in 1..n |-> a])

\* shape functions and first derivatives as short sums of <<coefficient, power>>
NTerms(i) == << <<1, i>> >>
NdTerms(i) == IF i = 0 THEN <<>> ELSE << <<i, i - 1>> >>
TTerms(i) == IF i = 0 THEN << <<1, 0>>, <<-1, 1>> >> ELSE IF i = 1 THEN << <<1, 0>>, <<1, 1>> >>
             ELSE IF i % 2 = 0 THEN << <<1, i>>, <<-1, 0>> >> ELSE << <<1, i>>, <<-1, 1>> >>
TdTerms(i) == IF i = 0 THEN << <<-1, 0>> >> ELSE IF i = 1 THEN << <<1, 0>> >>
              ELSE IF i % 2 = 0 THEN << <<i, i - 1>> >> ELSE << <<i, i - 1>>, <<-1, 0>> >>
\* integral of P(c + h s) Q(s)
PairInt(P, Q, mono) ==
  Total([x \in 1..(Len(P) * Len(Q)) |->
     LET a == P[1 + ((x - 1) \div Len(Q))]  b == Q[1 + ((x - 1) % Len(Q))] IN Mul(a[1] * b[1], mono[a[2] + 1][b[2] + 1])])

Factor(f, c, i, d) ==       \* shape function of f in direction c (1 = u, 2 = v), or its derivative
  IF (f = "U") = (c = 1) THEN (IF d = 0 THEN NTerms(i) ELSE NdTerms(i)) ELSE (IF d = 0 THEN TTerms(i) ELSE TdTerms(i))

\* tables of a pair of cells: X the ancestor (or the same cell), Y the smaller one
PairTables(t, x, y, n, U) ==
  LET p == Place(t, x, y) IN
  [m |-> <<MonoTable(p.c[1], p.h[1], n), MonoTable(p.c[2], p.h[2], n)>>,
   x |-> <<JacX(t, x, U), JacY(t, x, U)>>, y |-> <<JacX(t, y, U), JacY(t, y, U)>>]

\* integral over Y of F . G, F = <<direction, i, j>> on X, G on Y  (without the material)
DotInt(F, G, tb) ==
  IF F[1] # G[1] THEN Rat(0, 1)
  ELSE LET w == IF F[1] = "U" THEN Quot(tb.y[2], tb.x[1]) ELSE Quot(tb.y[1], tb.x[2]) IN
       Mul(w, Mul(PairInt(Factor(F[1], 1, F[2], 0), Factor(G[1], 1, G[2], 0), tb.m[1]),
                  PairInt(Factor(F[1], 2, F[3], 0), Factor(G[1], 2, G[3], 0), tb.m[2])))
\* curl F_u = -(1/(Jx Jy)) N_i T_j',  curl F_v = (1/(Jx Jy)) T_i' N_j
CurlInt(F, G, tb) ==
  LET du(f) == IF f = "U" THEN 0 ELSE 1
      dv(f) == IF f = "U" THEN 1 ELSE 0
      w == Quot(IF F[1] = G[1] THEN 1 ELSE -1, Mul(tb.x[1], tb.x[2]))
  IN Mul(w, Mul(PairInt(Factor(F[1], 1, F[2], du(F[1])), Factor(G[1], 1, G[2], du(G[1])), tb.m[1]),
                PairInt(Factor(F[1], 2, F[3], dv(F[1])), Factor(G[1], 2, G[3], dv(G[1])), tb.m[2])))
\* magnitude of the integrands, for tolerances
DotSize(F, G, tb) == Mul(16, Add(Quot(tb.y[2], tb.x[1]), Quot(tb.y[1], tb.x[2])))
CurlSize(F, G, tb) == Mul(16 * (1 + F[2] + F[3]) * (1 + G[2] + G[3]), Quot(1, Mul(tb.x[1], tb.x[2])))
\* ------------------------------------------------------------ the same integral, by parts
\* int_Y curl P curl Q = int_Y (curl curl P) . Q + sum over the sides of Y of the boundary term, with
\* curl curl P = (d/dy curl P, - d/dx curl P).  P and Q live on X and Y in either order.
NddTerms(i) == IF i <= 1 THEN <<>> ELSE << <<i * (i - 1), i - 2>> >>
Terms(f, c, i, d) ==
  IF d < 2 THEN Factor(f, c, i, d) ELSE NddTerms(i)    \* both shape functions have the same second derivative
\* the function of the pair that lives on X first: pOnX says whether that is P
PartInt(P, Q, pOnX, c, dp, tb) ==
  LET a == Terms(P[1], c, P[1 + c], dp)  b == Terms(Q[1], c, Q[1 + c], 0) IN
  IF pOnX THEN PairInt(a, b, tb.m[c]) ELSE PairInt(b, a, tb.m[c])
PolyAt(T, x) == Total([k \in DOMAIN T |-> Mul(T[k][1], Power(x, T[k][2]))])
\* the product of the two factors in direction c at the end s of Y (-1 or 1)
PartEnd(P, Q, pOnX, c, dp, s, pl) ==
  LET at(onX) == IF onX THEN Add(pl.c[c], Mul(s, pl.h[c])) ELSE Rat(s, 1) IN
  Mul(PolyAt(Terms(P[1], c, P[1 + c], dp), at(pOnX)), PolyAt(Terms(Q[1], c, Q[1 + c], 0), at(~pOnX)))

CurlSign(P) == IF P[1] = "U" THEN -1 ELSE 1
Side(pOnX, tb) == IF pOnX THEN tb.x ELSE tb.y
FaceWeight(P, Q, pOnX, tb) ==
  LET jp == Side(pOnX, tb)  jq == Side(~pOnX, tb)  area == Mul(tb.y[1], tb.y[2])  det == Mul(jp[1], jp[2]) IN
  IF Q[1] = "U" THEN Quot(area, Mul(Mul(det, jp[2]), jq[1])) ELSE Quot(area, Mul(Mul(det, jp[1]), jq[2]))
FaceTerm(P, Q, pOnX, tb) ==
  LET du == (IF P[1] = "V" THEN 1 ELSE 0) + (IF Q[1] = "V" THEN 1 ELSE 0)
      dv == (IF P[1] = "U" THEN 1 ELSE 0) + (IF Q[1] = "U" THEN 1 ELSE 0)
      sign == CurlSign(P) * (IF Q[1] = "U" THEN 1 ELSE -1)
  IN Mul(Mul(sign, FaceWeight(P, Q, pOnX, tb)), Mul(PartInt(P, Q, pOnX, 1, du, tb), PartInt(P, Q, pOnX, 2, dv, tb)))
EdgeWeight(P, Q, pOnX, e, tb) ==
  LET jp == Side(pOnX, tb)  jq == Side(~pOnX, tb)  c == IF e <= 1 THEN 1 ELSE 2 IN
  Quot(tb.y[c], Mul(Mul(jp[1], jp[2]), jq[c]))
\* sides 0, 1, 2, 3: lower, upper, left, right
EdgeTerm(P, Q, pOnX, e, tb, pl) ==
  LET c == IF e <= 1 THEN 1 ELSE 2      \* along the side
      o == 3 - c
      du == IF P[1] = "V" THEN 1 ELSE 0
      d == <<du, 1 - du>>
      sign == CurlSign(P) * (IF e \in {0, 3} THEN 1 ELSE -1)
      end == IF e \in {0, 2} THEN -1 ELSE 1
  IN IF (Q[1] = "U") # (c = 1) THEN Rat(0, 1)
     ELSE Mul(Mul(sign, EdgeWeight(P, Q, pOnX, e, tb)), Mul(PartInt(P, Q, pOnX, c, d[c], tb), PartEnd(P, Q, pOnX, o, d[o], end, pl)))
FaceSize(P, Q, pOnX, tb) == Mul(16 * (1 + P[2] + P[3]) * (1 + P[2] + P[3]), FaceWeight(P, Q, pOnX, tb))
EdgeSize(P, Q, pOnX, e, tb) == Mul(16 * (1 + P[2] + P[3]), EdgeWeight(P, Q, pOnX, e, tb))
Whole(P, Q, pOnX, tb) == IF pOnX THEN CurlInt(P, Q, tb) ELSE CurlInt(Q, P, tb)
PartsAddUp(P, Q, pOnX, tb, pl) ==
  Same(Whole(P, Q, pOnX, tb),
       Total(<<FaceTerm(P, Q, pOnX, tb)>> \o [e \in 1..4 |-> EdgeTerm(P, Q, pOnX, e - 1, tb, pl)]))
=============================================================================
