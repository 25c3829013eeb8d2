---------------------------- MODULE FemLocTrace ----------------------------
(* Judges basis-function specifications the library builds on the mesh.      *)
EXTENDS FemNumTrace, FemLoc

Fun(k, q) == <<k, q[1], q[2], q[3]>>
CheckL1(t, r) ==
  IF r.x \notin DOMAIN t.el \/ r.y \notin DOMAIN t.el THEN Equal("L", r.res, "nokey")
  ELSE IF r.res # "ok" THEN Say("L", r.res) /\ FALSE
  ELSE \A z \in DOMAIN r.q :
         LET q == r.q[z]  f == Fun(r.x, q.p)  g == Fun(r.y, q.o) IN
         /\ Equal("L.component of the first", q.at[1], Where(t, f))
         /\ Equal("L.component of the second", q.at[2], Where(t, g))
         /\ Equal("L.match", q.m, <<Answer(t, f, g), Answer(t, g, f)>>)
         /\ Equal("L.equal", q.eq, <<SameSpec(t, f, g), SameSpec(t, g, f)>>)
         /\ Equal("L.given", q.own, TRUE)
CheckL(t, log) ==
  /\ \A x \in DOMAIN log.r : CheckL1(t, log.r[x])
  \* degrees of freedom made from n addresses
  /\ Equal("L.dof", log.dof, [n \in 1..Len(log.dof) |-> IF ((n - 1) % 7) \in {1, 2, 4} THEN "same" ELSE "panic"])
  /\ Equal("L.set twice", log.set, <<"ok", "panic">>)
LocView(t, e, v) == IF v = "l" THEN CheckL(t, e.l) ELSE NumView(t, e, v)
=============================================================================
