---------------------------- MODULE FemFieldMC ----------------------------
(* The theorem the degrees of freedom exist for, on every small mesh and    *)
(* order assignment: each is a tangentially continuous field that vanishes  *)
(* tangentially on the outer boundary.  Exact arithmetic; the traces are    *)
(* polynomials, so agreement in enough points is equality.                  *)
EXTENDS FemMeshMC, FemBasis
TangentiallyContinuous ==
  LET mo == MaxOrders(m) IN \A D \in Dofs(m) : Continuous(m, D, MaxOf(mo[1], mo[2]) + 1)
\* an interface that is not activated, or activated one level too high, would break it: the functions of a leaf
\* that no degree of freedom uses are exactly those with a trace on the boundary or without a partner
FunctionsOf(k) == LET e == m.el[k] IN
  {<<k, "U", i, j>> : i \in 0..(e.ni - 1), j \in 0..e.nj} \cup {<<k, "V", i, j>> : i \in 0..e.ni, j \in 0..(e.nj - 1)}
Single == {D \in Dofs(m) : Cardinality(D) = 1}
\* no single function outside the bubbles is continuous by itself: pairs cannot be split
Minimal ==
  LET mo == MaxOrders(m)  n == MaxOf(mo[1], mo[2]) + 1 IN
  \A D \in Dofs(m) : Cardinality(D) = 2 => \A f \in D : ~Continuous(m, {f}, n)
MissesNothing ==
  LET mo == MaxOrders(m)  n == MaxOf(mo[1], mo[2]) + 1 IN
  \A k \in Leaves(m) : \A f \in FunctionsOf(k) : Continuous(m, {f}, n) => {f} \in Single
===========================================================================
