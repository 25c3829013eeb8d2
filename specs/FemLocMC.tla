------------------------------ MODULE FemLocMC ------------------------------
(* On every reachable mesh: exactly the interior functions are continuous by  *)
(* themselves, and exactly the matching pairs are continuous together.        *)
EXTENDS FemMeshMC, FemLoc
Top == 3
Funs == {<<k, d, i, j>> : k \in DOMAIN m.el, d \in {"U", "V"}, i \in 0..Top, j \in 0..Top}
All == Funs \cup {<<k, "W", i, j>> : k \in DOMAIN m.el, i \in 0..Top, j \in 0..Top}
OnePlace == \A f \in All : Unique(f)
Alone == \A f \in Funs : Continuous(m, {f}, Top + 2) <=> Where(m, f)[1] = "elem"
EdgeFuns == {f \in Funs : Where(m, f)[1] = "edge"}
Together == \A f, g \in EdgeFuns : f # g /\ Where(m, f)[3] = Where(m, g)[3] =>
              (Answer(m, f, g) = "yes" <=> Continuous(m, {f, g}, Top + 2))
Fair == \A f, g \in EdgeFuns : Answer(m, f, g) = Answer(m, g, f) /\ Answer(m, f, f) = "no"
=============================================================================
