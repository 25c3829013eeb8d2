-------------------------- MODULE FemSpaceTrace --------------------------
(* Assembled problems judged as a whole: the mass matrix is positive        *)
(* definite, the energy is not negative and vanishes on exactly the fields  *)
(* without curl, and along growing histories the k-th eigenvalue never goes *)
(* up (from below) or down (from above).  Signs of eigenvalues are decided  *)
(* in exact arithmetic on the recorded doubles.                             *)
EXTENDS FemNumTrace, FemSpace

Real2(t) == LET x == Extent(t) IN Power(Mul(MaxOf(x[1], x[2]), U), 2)
MaxMat(t) == LET big(c) == FoldSet(LAMBDA k, a : MaxOf(a, MatOf(t.el[k].root)[c]), 1, Roots(t)) IN Rat(big(1) * big(3), 64)
\* well below the lowest resonance, well above rounding
Small2(t) == Quot(1, Mul(64, Mul(Real2(t), MaxMat(t))))
Matrices(r) == LET n == Len(r.dofs) IN <<TLCEval(Symmetric(n, r.A)), TLCEval(Symmetric(n, r.B))>>
Count(G, x) == Inertia(Combine(G[1], Opp(x), G[2]))
Growing(e) ==
  CASE e.op \in {"init", "look", "hx", "hl", "hg", "hf"} -> TRUE
    [] e.op = "px" -> \A x \in DOMAIN e.items : e.items[x][2] >= 0 /\ e.items[x][3] >= 0
    [] e.op = "pg" -> e.d[1] >= 0 /\ e.d[2] >= 0
    [] OTHER -> FALSE
\* the last earlier assembly from which the mesh only grew: its position in the session, 0 if there is none
Before == LET J == {j \in 1..i : Has(Sess.ev[j], "s") /\ Sess.ev[j].s[1].res = "ok" /\ \A k \in (j + 1)..(i + 1) : Growing(Sess.ev[k])} IN
          IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : k <= j
Close == Rat(1, 65536)
CheckS1(t, r) ==
  LET want == AsmOutcome(t, r) IN
  /\ Equal("assembly outcome", r.res, want)
  /\ want = "ok" =>
     LET n == Len(r.dofs)
         G == TLCEval(Matrices(r))
         d == Small2(t)
         j == Before
     IN
     /\ Ok("size", r.dim = <<n, n>> /\ n = Cardinality(Dofs(t)), <<n, r.dim, Cardinality(Dofs(t))>>)
     /\ Ok("mass matrix is positive definite", Inertia(G[2]) = <<0, n>>, Inertia(G[2]))
     /\ Ok("energy is not negative", Inertia(Combine(G[1], d, G[2])) = <<0, n>>, Inertia(Combine(G[1], d, G[2])))
     /\ Upward(t) => Ok("fields without curl", Count(G, d) = <<CurlFree(t), n - CurlFree(t)>>, [found |-> Count(G, d), expected |-> CurlFree(t)])
     /\ (j > 0 /\ Upward(t)) =>
          LET o == Sess.ev[j].s[1]
              H == TLCEval(Matrices(o))
          IN /\ Ok("the space only grows", n >= Len(o.dofs), <<Len(o.dofs), n>>)
             /\ \A x \in DOMAIN r.sig :
                  LET z == Quot(Rat(r.sig[x], 8), Mul(Real2(t), MaxMat(t)))
                      was == TLCEval(Count(H, z))
                      up == TLCEval(Count(G, Mul(z, Add(1, Close))))  down == TLCEval(Count(G, Mul(z, Sub(1, Close))))
                  IN was[1] = -1 \/ up[1] = -1 \/ down[1] = -1 \/
                     /\ Ok("eigenvalues went up", up[1] >= was[1], [value |-> Decimal(z), below |-> <<was[1], up[1]>>])
                     /\ Ok("the largest eigenvalues went down", down[2] >= was[2], [value |-> Decimal(z), above |-> <<was[2], down[2]>>])

SpaceView(t, e, v) == IF v = "s" THEN \A x \in DOMAIN e.s : CheckS1(t, e.s[x]) ELSE MeshView(t, e, v)

\* ------------------------------------------------------------ rectangular cavities
Uniform(t) == \A k \in Roots(t) : MatOf(t.el[k].root) = MatOf(0)
CheckCavity(t, r) ==
  LET want == AsmOutcome(t, r) IN
  /\ Equal("assembly outcome", r.res, want)
  /\ (want = "ok" /\ Rectangular(t) /\ Uniform(t) /\ Upward(t)) =>
     LET x == Extent(t)
         wide(c) == FoldSet(LAMBDA k, a : MaxOf(a, t.el[k].rect[c + 2] - t.el[k].rect[c]), 1, Roots(t))
         report(p, q) == Say("resonances", [mode |-> p, is |-> q]) /\ FALSE
         mt == MatReal(t, "r0")
     IN Resonant(Matrices(r), CurlFree(t), <<Mul(x[1], U), Mul(x[2], U)>>, <<Mul(wide(1), U), Mul(wide(2), U)>>, MinOrder(t), Mul(mt.eps, mt.mu), report)
CavityView(t, e, v) == IF v = "s" THEN \A x \in DOMAIN e.s : CheckCavity(t, e.s[x]) ELSE MeshView(t, e, v)
==========================================================================
