----------------------------- MODULE FemPartsMC -----------------------------
(* Integration by parts, checked exactly: for every pair of vector basis     *)
(* functions up to an order, either one on the larger cell, the face term    *)
(* and the four edge terms add up to the curl-curl integral; and the terms   *)
(* themselves are what a step along the derivation gives: the boundary terms *)
(* of a function without tangential trace vanish.                            *)
EXTENDS FemBasis, IOUtils

N == atoi(IOEnv.MC_ORDER)
Deep == IOEnv.MC_DEEP = "yes"

Fns == {<<d, i, j>> : d \in {"U", "V"}, i \in 0..N, j \in 0..N}
\* <<centre, half width>> of Y in X per direction (in 1/8), and J of X per direction
Places == {<<0, 8, 0, 8>>, <<4, 4, -4, 4>>, <<-4, 4, 0, 8>>, <<2, 2, 7, 1>>} \cup
          (IF Deep THEN {<<0, 8, -4, 4>>, <<-7, 1, -7, 1>>, <<-2, 2, 6, 2>>, <<5, 1, -6, 2>>} ELSE {})
Jac == {<<4, 4>>, <<6, 1>>}      \* in 1/4

VARIABLES pl, jx, P, Q, onX
vars == <<pl, jx, P, Q, onX>>

Init == /\ pl \in Places /\ jx \in Jac /\ P \in Fns /\ Q \in Fns /\ onX \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Pl == [c |-> <<Rat(pl[1], 8), Rat(pl[3], 8)>>, h |-> <<Rat(pl[2], 8), Rat(pl[4], 8)>>]
Tb == [m |-> <<MonoTable(Pl.c[1], Pl.h[1], N), MonoTable(Pl.c[2], Pl.h[2], N)>>,
       x |-> <<Rat(jx[1], 4), Rat(jx[2], 4)>>, y |-> <<Mul(Rat(jx[1], 4), Pl.h[1]), Mul(Rat(jx[2], 4), Pl.h[2])>>]

AddUp == PartsAddUp(P, Q, onX, Tb, Pl)

\* when Q lives on Y and its tangential factor vanishes on a side, nothing comes from that side
NoTrace ==
  onX => \A e \in 0..3 :
    LET trace == CASE Q[1] = "U" /\ e = 0 -> Q[3] = 0 [] Q[1] = "U" /\ e = 1 -> Q[3] = 1
                   [] Q[1] = "V" /\ e = 2 -> Q[2] = 0 [] Q[1] = "V" /\ e = 3 -> Q[2] = 1 [] OTHER -> FALSE
    IN ~trace => Same(EdgeTerm(P, Q, onX, e, Tb, Pl), 0)

\* the whole integral does not depend on which of the two is differentiated away
EitherWay == (pl = <<0, 8, 0, 8>>) => Same(Whole(P, Q, TRUE, Tb), Whole(Q, P, TRUE, Tb))
=============================================================================
