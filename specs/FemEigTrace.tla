---------------------------- MODULE FemEigTrace ----------------------------
(* Judges answers of the dense solver in exact arithmetic.  A pencil is two  *)
(* lists of entries <<i, j, hex>>.  That the returned value is the nearest   *)
(* eigenvalue is decided by Sylvester's law of inertia: the number of        *)
(* eigenvalues below s is the number of negative pivots of A - s B.          *)
EXTENDS BigRat, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
vars == <<s, i, bad>>
Sess == Trace[s]
Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " evaluation=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE
Eps(j) == Power(Rat(1, 2), j)

Ent(q) == [k \in 1..Len(q) |-> <<q[k][1] + 1, q[k][2] + 1, F64(q[k][3])>>]
Diagonal(E) == \A k \in DOMAIN E : E[k][1] = E[k][2]
Dense(n, E) == LET zero == [r \in 1..n |-> [c \in 1..n |-> 0]]
                   put(M, e) == IF e[1] = e[2] THEN [M EXCEPT ![e[1]][e[1]] = Add(@, e[3])]
                                ELSE [M EXCEPT ![e[1]][e[2]] = Add(@, e[3]), ![e[2]][e[1]] = Add(@, e[3])]
               IN FoldLeft(put, zero, E)
\* M x for a symmetric matrix given by its entries (each position listed once or added up)
Times(n, E, x) == LET step(y, e) == IF e[1] = e[2] THEN [y EXCEPT ![e[1]] = Add(@, Mul(e[3], x[e[1]]))]
                                    ELSE [y EXCEPT ![e[1]] = Add(@, Mul(e[3], x[e[2]])), ![e[2]] = Add(@, Mul(e[3], x[e[1]]))]
                  IN FoldLeft(step, [k \in 1..n |-> 0], E)
Size(E) == Total([k \in DOMAIN E |-> Abs(E[k][3])])
MaxAbs(x) == FoldLeft(LAMBDA m, v : Max2(m, Abs(v)), 0, x)

Shifted(A, B, n, x) == [r \in 1..n |-> [c \in 1..n |-> Sub(A[r][c], Mul(x, B[r][c]))]]
\* eigenvalues below x, -1 when x is (accidentally) an eigenvalue of a leading part
Below(p, x) ==
  IF p.diag THEN Cardinality({k \in 1..p.n : Less(Sub(p.A[k][k], Mul(x, p.B[k][k])), 0)})
  ELSE Inertia(Shifted(p.A, p.B, p.n, x))[1]
PositiveDefinite(p) == IF p.diag THEN \A k \in 1..p.n : Sign(p.B[k][k]) > 0 ELSE Inertia(p.B) = <<0, p.n>>

\* some point near x at which the count is defined
RECURSIVE Probe(_, _, _, _)
Probe(p, x, step, tries) == LET b == Below(p, x) IN IF b >= 0 \/ tries = 0 THEN b ELSE Probe(p, Add(x, step), step, tries - 1)
\* no eigenvalue in the open interval (lo, hi), up to a relative margin; the points are rounded to few digits
NoneBetween(p, lo, hi) ==
  IF p.diag THEN \A k \in 1..p.n : ~(Sign(Sub(p.A[k][k], Mul(lo, p.B[k][k]))) > 0 /\ Sign(Sub(p.A[k][k], Mul(hi, p.B[k][k]))) < 0) ELSE
  LET w == Sub(hi, lo)
      fine == IF p.n > 12 THEN 12 ELSE 32
      bits == CHOOSE j \in 0..90 : (AtMost(Eps(j), Mul(w, Eps(fine))) \/ j = 90) /\ \A y \in 0..(j - 1) : ~AtMost(Eps(y), Mul(w, Eps(fine)))
      step == Eps(bits)
      a == Probe(p, Add(RoundTo(lo, bits), step), step, 8)  b == Probe(p, Sub(RoundTo(hi, bits), step), Opp(step), 8)
  IN Less(w, Eps(40)) \/ a = b \/ a < 0 \/ b < 0
\* an eigenvalue within d of v
SomeNear(p, v, d) ==
  IF p.diag THEN \E k \in 1..p.n : AtMost(Abs(Sub(p.A[k][k], Mul(v, p.B[k][k]))), Mul(d, p.B[k][k])) ELSE
  LET bits == CHOOSE j \in 0..90 : (AtMost(Eps(j), Mul(d, Eps(4))) \/ j = 90) /\ \A y \in 0..(j - 1) : ~AtMost(Eps(y), Mul(d, Eps(4)))
      step == Eps(bits)
      a == Probe(p, RoundTo(Sub(v, d), bits), Opp(step), 8)  b == Probe(p, RoundTo(Add(v, d), bits), step, 8)
  IN a < 0 \/ b < 0 \/ a < b

\* every eigenvalue is zero to the accuracy the solver documents as spurious
Tiny == FromDecimal("0.00000000000101")
AllTiny(p) == Probe(p, Opp(Tiny), Mul(Tiny, Eps(12)), 8) = 0 /\ Probe(p, Tiny, Mul(Tiny, Eps(12)), 8) = p.n

MaxDense == 1000
DiagFast(n, E) == LET f == FoldLeft(LAMBDA y, e : [y EXCEPT ![e[1]] = Add(@, e[3])], [k \in 1..n |-> 0], E) IN [r \in 1..n |-> [c \in {r} |-> f[r]]]

Solve(e) ==
  LET n == e.n[1] IN
  IF n > MaxDense THEN Ok("problem above the size limit", e.out.r = "large", e.out.r)
  ELSE
  LET EA == TLCEval(Ent(e.a))  EB == TLCEval(Ent(e.b))
      dg == Diagonal(EA) /\ Diagonal(EB)
      p == TLCEval([n |-> n, diag |-> dg, A |-> IF dg THEN DiagFast(n, EA) ELSE Dense(n, EA), B |-> IF dg THEN DiagFast(n, EB) ELSE Dense(n, EB)])
      zeroA == \A r \in 1..n : \A c \in DOMAIN p.A[r] : Sign(p.A[r][c]) = 0
  IN
  IF ~PositiveDefinite(p) THEN Ok("B is not positive definite", e.out.r = "invert", e.out.r)
  ELSE IF zeroA THEN Ok("only zero eigenvalues", e.out.r = "spurious", e.out.r)
  ELSE IF e.out.r = "spurious" THEN Ok("only zero eigenvalues", AllTiny(p), e.out.r)
  ELSE IF e.out.r # "ok" THEN Ok("outcome", FALSE, e.out.r)
  ELSE
  /\ Ok("length", Len(e.out.x) = n, Len(e.out.x))
  /\ Ok("finite", F64Finite(e.out.v) /\ \A k \in 1..n : F64Finite(e.out.x[k]), e.out.v)
  /\ LET x == TLCEval([k \in 1..n |-> F64(e.out.x[k])])
         v == F64(e.out.v)
         t == F64(e.t)
         m == MaxAbs(x)
         size == Add(Size(EA), Mul(Abs(v), Size(EB)))
         ax == TLCEval(Times(n, EA, x))  bx == TLCEval(Times(n, EB, x))
         res == TLCEval([k \in 1..n |-> Sub(ax[k], Mul(v, bx[k]))])
         \* margin for comparing eigenvalues (B is well conditioned: its smallest eigenvalue is at least e.low)
         \* diagonal pencils need no iteration: theirs are accurate to rounding
         far == IF dg THEN Mul(Eps(42), Quot(MaxAbs([k \in 1..n |-> p.A[k][k]]), F64(e.low))) ELSE Mul(Eps(IF n > 12 THEN 18 ELSE 40), Quot(size, F64(e.low)))
         margin == Add(far, Mul(Eps(44), Abs(t)))
         rho == Sub(Abs(Sub(v, t)), margin)
     IN
     /\ Ok("eigenvector is not zero", Sign(m) > 0, e.out.x)
     /\ Ok("A u = lambda B u", AtMost(MaxAbs(res), Mul(Eps(18), Mul(size, m))), [residual |-> Decimal(MaxAbs(res)), size |-> Decimal(size), value |-> Decimal(v)])
     /\ Ok("an eigenvalue", n > 12 \/ Sign(far) = 0 \/ SomeNear(p, v, far), Decimal(v))
     /\ Ok("nearest eigenvalue", Sign(rho) <= 0 \/ NoneBetween(p, Sub(t, rho), Add(t, rho)), [target |-> Decimal(t), value |-> Decimal(v)])

Normal(e) ==
  LET n == Len(e.x)
      x == [k \in 1..n |-> F64(e.x[k])]
      m == CHOOSE k \in 1..n : \A y \in 1..n : AtMost(Abs(x[y]), Abs(x[k]))
  IN
  /\ Ok("normalization", e.out.r = "ok" /\ Len(e.out.x) = n, e.out.r)
  /\ Ok("finite", \A k \in 1..n : F64Finite(e.out.x[k]), e.out.x)
  /\ Ok("normalization leaves the pair alone", e.out.o = e.x /\ e.out.v = e.v, e.out.o)
  /\ LET u == TLCEval([k \in 1..n |-> F64(e.out.x[k])]) IN
     /\ Ok("unit length", AtMost(Abs(Sub(Inner(u, u), 1)), Mul(n + 4, Eps(48))), Decimal(Inner(u, u)))
     /\ Ok("same direction", Sign(u[m]) = Sign(x[m]) /\ \A k \in 1..n : AtMost(Abs(Sub(Mul(u[k], x[m]), Mul(u[m], x[k]))), Mul(Eps(44), Abs(x[m]))), e.out.x)

Right(e) == IF e.f = "solve" THEN Solve(e) ELSE Normal(e)
Init == s \in DOMAIN Trace /\ i = 0 /\ bad = FALSE
Next ==
  /\ ~bad /\ i < Len(Sess.ev)
  /\ i' = i + 1 /\ s' = s
  /\ LET ok == Right(Sess.ev[i + 1]) IN
     /\ bad' = ~ok
     /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
        ELSE IF i + 1 = Len(Sess.ev) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
