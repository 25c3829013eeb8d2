---------------------------- MODULE FemQuadTrace ----------------------------
(* Judges recorded quadrature rules, weighted sums and shape-function tables.  An evaluation of     *)
(* kind "rule" is walked degree by degree (one transition per Legendre moment), the others take one *)
(* transition each.                                                                                 *)
EXTENDS FemQuad, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, k, pk, pk1, bad
vars == <<s, i, k, pk, pk1, bad>>
Sess == Trace[s]
Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " evaluation=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE

Finite(q) == \A x \in DOMAIN q : F64Finite(q[x])
Read(q) == [x \in DOMAIN q |-> F64(q[x])]
Trim(q) == SubSeq(q, 2, Len(q) - 1)
Eps(j) == Power(Rat(1, 2), j)
Tiny == Eps(40)                       \* about 1e-12
\* |got - exp| <= 2^-44 (1 + size)
Close(got, exp, size) == AtMost(Abs(Sub(got, exp)), Mul(Eps(44), Add(1, size)))

\* --------------------------------------------------------------- rules
Points(e) == LET p == Read(e.out.p) IN IF e.ep THEN Trim(p) ELSE p
Weights(e) == LET w == Read(e.out.w) IN IF e.ep THEN Trim(w) ELSE w

RuleShape(e) ==
  LET n == e.n + (IF e.ep THEN 2 ELSE 0) IN
  /\ Ok("number of points", Len(e.out.p) = n /\ Len(e.out.w) = n, <<Len(e.out.p), Len(e.out.w)>>)
  /\ Ok("not a number", Finite(e.out.p) /\ Finite(e.out.w) /\ \A r \in DOMAIN e.out.sc : Finite(e.out.sc[r].p) /\ F64Finite(e.out.sc[r].k), e.n)
  /\ LET x == Points(e)  w == Weights(e)  a == Read(e.out.p) IN
     /\ Ok("order", Ascending(a), e.n)
     /\ Ok("points inside (-1,1)", Inside(x), e.n)
     /\ Ok("endpoints", e.ep => Same(a[1], -1) /\ Same(a[n], 1), e.n)
     /\ Ok("positive weights", Positive(w), e.n)
     /\ Ok("symmetry", SymmetricRule(x, w, Tiny), e.n)
     /\ Ok("scalings", Len(e.out.sc) = Len(e.ranges), e.n)
     /\ \A r \in DOMAIN e.ranges :
          LET lo == F64(e.ranges[r][1])  hi == F64(e.ranges[r][2])
              h == Quot(Sub(hi, lo), 2)  c == Quot(Add(hi, lo), 2)
              size == Add(Abs(lo), Abs(hi))
              y == Read(e.out.sc[r].p)
          IN /\ Ok("scale factor", AtMost(Abs(Sub(F64(e.out.sc[r].k), h)), Mul(Eps(48), size)), <<e.n, r>>)
             /\ Ok("number of scaled points", Len(y) = n, <<e.n, r>>)
             /\ Ok("affine image", \A j \in DOMAIN y : AtMost(Abs(Sub(y[j], Add(c, Mul(h, a[j])))), Mul(Eps(48), size)), <<e.n, r>>)

\* --------------------------------------------------------------- sums (integer data, so exact)
Dim(e) == <<Len(e.u), Len(e.v)>>
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Cell(e, m, n) == e.u[m] * e.v[n] * e.g[m][n]
AreaSum(e, lo, hiu, hiv) ==
  SumTo([m \in 1..hiu |-> IF m < lo THEN 0 ELSE SumTo([n \in 1..hiv |-> IF n < lo THEN 0 ELSE Cell(e, m, n)], hiv)], hiu)
EdgeSum(e, j) ==
  LET nu == Len(e.u)  nv == Len(e.v) IN
  IF j = 1 THEN SumTo([m \in 1..(nu - 1) |-> IF m = 1 THEN 0 ELSE e.u[m] * e.g[m][1]], nu - 1)
  ELSE IF j = 2 THEN SumTo([m \in 1..(nu - 1) |-> IF m = 1 THEN 0 ELSE e.u[m] * e.g[m][nv]], nu - 1)
  ELSE IF j = 3 THEN SumTo([n \in 1..(nv - 1) |-> IF n = 1 THEN 0 ELSE e.v[n] * e.g[1][n]], nv - 1)
  ELSE SumTo([n \in 1..(nv - 1) |-> IF n = 1 THEN 0 ELSE e.v[n] * e.g[nu][n]], nv - 1)
SumOK(e) ==
  /\ Ok("full sum", Same(F64(e.out.full), AreaSum(e, 1, Len(e.u), Len(e.v))), Dim(e))
  /\ Ok("inner sum", Same(F64(e.out.inner), AreaSum(e, 2, Len(e.u) - 1, Len(e.v) - 1)), Dim(e))
  /\ \A j \in 1..4 : Ok("edge sum", Same(F64(e.out.edge[j]), EdgeSum(e, j)), <<Dim(e), j>>)

\* x^a y^b over a rectangle, integrated by the library's own rules
SumXOK(e) ==
  LET r == Read(e.r)  a == e.d[1]  b == e.d[2]
      ia == MonoInt(a, r[1], r[2])  ib == MonoInt(b, r[3], r[4])
      big(lo, hi, d) == Power(Max2(1, Max2(Abs(lo), Abs(hi))), d + 1)
      size == Mul(big(r[1], r[2], a), big(r[3], r[4], b))
      near(got, exp) == AtMost(Abs(Sub(got, exp)), Mul(Eps(36), size))
  IN /\ Ok("integral over a rectangle", F64Finite(e.out.area) /\ near(F64(e.out.area), Mul(ia, ib)), <<e.n, e.d, e.out.area>>)
     /\ e.ep => \A j \in 1..4 :
          Ok("integral along a side", F64Finite(e.out.edge[j]) /\
             near(F64(e.out.edge[j]), CASE j = 1 -> Mul(ia, Power(r[3], b)) [] j = 2 -> Mul(ia, Power(r[4], b))
                                        [] j = 3 -> Mul(ib, Power(r[1], a)) [] j = 4 -> Mul(ib, Power(r[2], a))), <<e.n, e.d, j>>)

\* --------------------------------------------------------------- shape functions
TableOK(what, e, tab, F(_, _), x) ==
  /\ Ok(what \o " has every order and point", Len(tab) = e.n + 1 /\ \A o \in DOMAIN tab : Len(tab[o]) = Len(x), e.n)
  /\ \A o \in DOMAIN tab : \A q \in DOMAIN x :
       LET exp == F(o - 1, x[q]) IN
       Ok(what, F64Finite(tab[o][q]) /\ AtMost(Abs(Sub(F64(tab[o][q]), exp)), Mul(Eps(46), o * o)), [order |-> o - 1, x |-> x[q], expected |-> exp])
ShapeOK(e) ==
  LET x == Read(e.p) IN
  /\ TableOK("norm", e, e.out.n0, NormFn, x)
  /\ TableOK("norm_d1", e, e.out.n1, NormD1, x)
  /\ TableOK("tang", e, e.out.t0, TangFn, x)
  /\ TableOK("tang_d1", e, e.out.t1, TangD1, x)
  /\ e.d2 => /\ TableOK("norm_d2", e, e.out.n2, NormD2, x)
             /\ TableOK("tang_d2", e, e.out.t2, TangD2, x)

\* --------------------------------------------------------------- behaviours
Fresh(j) == k' = -1 /\ pk' = <<>> /\ pk1' = <<>> /\ i' = j
Done(ok) ==
  /\ bad' = ~ok
  /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
     ELSE IF i + 1 = Len(Sess.ev) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
  /\ Fresh(i + 1)
Cur == Sess.ev[i + 1]

Init == s \in DOMAIN Trace /\ i = 0 /\ k = -1 /\ pk = <<>> /\ pk1 = <<>> /\ bad = FALSE

One == /\ (Cur.res # "ok" \/ Cur.f # "rule")
       /\ Done(IF Cur.res # "ok" THEN Ok("panicked", FALSE, Cur.f)
               ELSE CASE Cur.f = "sum" -> SumOK(Cur) [] Cur.f = "sumx" -> SumXOK(Cur) [] Cur.f = "shape" -> ShapeOK(Cur))

\* walk a rule through the degrees
Enter == /\ Cur.res = "ok" /\ Cur.f = "rule" /\ k = -1
         /\ IF RuleShape(Cur)
            THEN /\ k' = 0 /\ bad' = FALSE /\ i' = i
                 /\ pk' = [j \in 1..Cur.n |-> Rat(1, 1)] /\ pk1' = [j \in 1..Cur.n |-> Rat(0, 1)]
            ELSE Done(FALSE)
Walk == /\ Cur.res = "ok" /\ Cur.f = "rule" /\ k >= 0
        /\ LET ok == Ok("moment", MomentOK(k, Weights(Cur), pk, Tiny), [n |-> Cur.n, degree |-> k, moment |-> Decimal(Moment(Weights(Cur), pk))])
           IN IF ~ok \/ k = 2 * Cur.n - 1 THEN Done(ok)
              ELSE LET x == Points(Cur) IN
                   /\ pk' = [j \in DOMAIN x |-> RoundTo(NextLegendre(k, x[j], pk[j], pk1[j]), Bits)]
                   /\ pk1' = pk /\ k' = k + 1 /\ i' = i /\ bad' = FALSE
Next == ~bad /\ i < Len(Sess.ev) /\ (One \/ Enter \/ Walk) /\ s' = s
Spec == Init /\ [][Next]_vars
OnlyPosition == <<s, i, k, bad>>
=============================================================================
