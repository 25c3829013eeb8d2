---------------------------- MODULE FemSpaceMC ----------------------------
(* Exact arithmetic, every small history: the degrees of freedom are linearly *)
(* independent, refinement loses nothing, and the fields without curl are     *)
(* exactly the gradients (and harmonic fields).                               *)
EXTENDS FemMeshMC, FemSpace
All(t) == SetToSeq(Dofs(t))
BasisIndependent == Independent(m, All(m))
CurlFreeAreGradients ==
  Upward(m) => LET D == All(m)  g == Inertia(Gram(m, D, "cc")) IN g[1] = 0 /\ Len(D) - g[2] = CurlFree(m)
NothingLost == [][Raised(m, m') /\ Upward(m') => NothingGone(m', m)]_<<m, hist>>
\* the start: anisotropic orders
Orders1 == atoi(Env("MC_NI", "2"))
Orders2 == atoi(Env("MC_NJ", "2"))
SpInit == m = BaseMesh(Bases[BaseName], Orders1, Orders2) /\ hist = <<>>
SpSpec == SpInit /\ [][Next]_<<m, hist>>
===========================================================================
