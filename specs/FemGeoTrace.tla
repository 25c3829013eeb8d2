----------------------------- MODULE FemGeoTrace -----------------------------
(* Judges recorded evaluations of points, vectors and matrices.               *)
EXTENDS FemGeo, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
vars == <<s, i, bad>>
Sess == Trace[s]

Close(got, exp, size) == F64Finite(got) /\ AtMost(Abs(Sub(F64(got), exp)), Mul(size, Power(2, -46)))
F2(v) == <<F64(v[1]), F64(v[2])>>
F4(v) == <<<<F64(v[1]), F64(v[2])>>, <<F64(v[3]), F64(v[4])>>>>
A2(v) == <<Abs(v[1]), Abs(v[2])>>
A4(m) == <<A2(m[1]), A2(m[2])>>
Close2(got, exp, size) == Close(got[1], exp[1], size[1]) /\ Close(got[2], exp[2], size[2])
Close4(got, exp, size) ==
  /\ Close2(<<got[1], got[2]>>, exp[1], size[1]) /\ Close2(<<got[3], got[4]>>, exp[2], size[2])

\* names of the answers that are wrong
Points(e) ==
  LET p == e.p
      q == e.q
      o == e.out
      eq == SamePoint(p, q)
      P2 == <<F64(e.ph[1]), F64(e.ph[2])>>
      Q2 == <<F64(e.qh[1]), F64(e.qh[2])>>
      dx == Sub(P2[1], Q2[1])
      dy == Sub(P2[2], Q2[2])
      mid == <<Quot(Add(P2[1], Q2[1]), 2), Quot(Add(P2[2], Q2[2]), 2)>>
      sum == VAdd(P2, Q2)
      asum == VAdd(A2(P2), A2(Q2))
  IN (IF \A x \in {1, 2} : Less(Abs(Sub(P2[x], Value(p[x]))), Rat(1, Power(10, 14))) /\ Less(Abs(Sub(Q2[x], Value(q[x]))), Rat(1, Power(10, 14)))
      THEN {} ELSE {"the scenario's coordinates"})
     \cup (IF o.eq = eq THEN {} ELSE {"equality"})
     \cup (IF eq => o.hash THEN {} ELSE {"hash of equal points"})
     \cup (IF o.xo = Cmp(p[1], q[1]) THEN {} ELSE {"x_order"})
     \cup (IF o.yo = Cmp(p[2], q[2]) THEN {} ELSE {"y_order"})
     \cup (IF (eq /\ o.dir = "panic") \/ (~eq /\ o.dir \in Directions(p, q)) THEN {} ELSE {"orientation"})
     \cup (IF LET d == F64(o.dist)
                  sq == Add(Mul(dx, dx), Mul(dy, dy))
              IN F64Finite(o.dist) /\ Sign(d) >= 0 /\ AtMost(Abs(Sub(Mul(d, d), sq)), Add(Mul(sq, Power(2, -45)), Mul(Add(Abs(dx), Abs(dy)), Power(2, -45))))
           THEN {} ELSE {"distance"})
     \cup (IF Close2(o.mid, mid, asum) THEN {} ELSE {"between"})
     \cup (IF Close2(o.sum, sum, asum) THEN {} ELSE {"sum"})
     \cup (IF Close2(o.half, VScale(P2, Quot(1, F64(e.x))), VScale(A2(P2), Quot(1, Abs(F64(e.x))))) THEN {} ELSE {"quotient"})
     \cup (IF o.same THEN {} ELSE {"Point::from and Point::new"})

Vectors(e) ==
  LET a == F2(e.a)
      b == F2(e.b)
      x == F64(e.x)
      o == e.out
  IN (IF Close2(o.add, VAdd(a, b), VAdd(A2(a), A2(b))) THEN {} ELSE {"V2D + V2D"})
     \cup (IF Close2(o.mul, VMul(a, b), VMul(A2(a), A2(b))) /\ Close2(o.mulr, VMul(a, b), VMul(A2(a), A2(b))) THEN {} ELSE {"V2D * V2D"})
     \cup (IF Close2(o.div, VDiv(a, b), VDiv(A2(a), A2(b))) THEN {} ELSE {"V2D / V2D"})
     \cup (IF Close2(o.scl, VScale(a, x), VScale(A2(a), Abs(x))) THEN {} ELSE {"V2D * f64"})
     \cup (IF Close2(o.sdiv, VScale(a, Quot(1, x)), VScale(A2(a), Quot(1, Abs(x)))) THEN {} ELSE {"V2D / f64"})
     \cup (IF Close(o.dot[1], Dot(a, b), Dot(A2(a), A2(b))) /\ Close(o.dot[2], Dot(a, b), Dot(A2(a), A2(b))) THEN {} ELSE {"dot product"})
     \cup (IF o.xy = e.a /\ o.ix = e.a THEN {} ELSE {"components"})

Matrices(e) ==
  LET m == F4(e.a)
      n == F4(e.b)
      v == F2(e.v)
      x == F64(e.x)
      o == e.out
      am == A4(m)
      ad == Add(Mul(am[1][1], am[2][2]), Mul(am[1][2], am[2][1]))
  IN (IF Close(o.det, Det(m), ad) THEN {} ELSE {"det"})
     \cup (IF o.tr = <<e.a[1], e.a[3], e.a[2], e.a[4]>> THEN {} ELSE {"transpose"})
     \cup (IF Close4(o.mul, Product(m, n), Product(am, A4(n))) THEN {} ELSE {"M2D * M2D"})
     \cup (IF Close2(o.app, Apply(m, v), Apply(am, A2(v))) THEN {} ELSE {"M2D * V2D"})
     \cup (IF Close4(o.sdiv, MScale(m, Quot(1, x)), MScale(am, Quot(1, Abs(x)))) THEN {} ELSE {"M2D / f64"})
     \cup (IF Less(Mul(Abs(Det(m)), 1000), ad) \/ Close4(o.inv, Inverse(m), MScale(<<<<am[2][2], am[1][2]>>, <<am[2][1], am[1][1]>>>>, Quot(Mul(2000, 1), Abs(Det(m)))))
           THEN {} ELSE {"inverse"})

Wrong(e) == CASE e.f = "pt" -> Points(e) [] e.f = "v2" -> Vectors(e) [] e.f = "m2" -> Matrices(e)

Init == s \in DOMAIN Trace /\ i = 0 /\ bad = FALSE
Next ==
  /\ ~bad /\ i < Len(Sess.ev)
  /\ i' = i + 1 /\ s' = s
  /\ LET e == Sess.ev[i + 1]
         w == IF e.res = "ok" THEN Wrong(e) ELSE {"panicked"}
     IN /\ bad' = (w # {})
        /\ IF w # {} THEN /\ PrintT("MISMATCH " \o Sess.sid \o " " \o ToString(w) \o " of " \o ToString(e))
                          /\ PrintT("VERDICT " \o Sess.sid \o " BAD")
           ELSE IF i + 1 = Len(Sess.ev) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
