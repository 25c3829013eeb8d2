------------------------------- MODULE FemLoc -------------------------------
(* Where a basis function lives on its cell, and which pairs belong together. *)
(* Everything is read off the exact polynomials: a function is filed under    *)
(* the side (corner) of the cell on which its tangential component (its       *)
(* value) does not vanish, under the interior if there is none.               *)
EXTENDS FemBasis

\* factors of the function <<i, j>> of direction d along u and v
AlongU(d, i, x) == IF d = "U" THEN NormFn(i, x) ELSE TangFn(i, x)
AlongV(d, j, x) == IF d = "V" THEN NormFn(j, x) ELSE TangFn(j, x)
IsZero(x) == Same(x, 0)
One == Rat(1, 1)
MinusOne == Rat(-1, 1)
\* sides S, N, W, E: a U function has no tangential component on W and E, a V function none on S and N
OnSide(d, i, j, c) ==
  CASE c = 1 -> d # "V" /\ ~IsZero(AlongV(d, j, MinusOne))
    [] c = 2 -> d # "V" /\ ~IsZero(AlongV(d, j, One))
    [] c = 3 -> d # "U" /\ ~IsZero(AlongU(d, i, MinusOne))
    [] c = 4 -> d # "U" /\ ~IsZero(AlongU(d, i, One))
\* corners SW, SE, NW, NE, only meaningful for scalar (W) functions
AtCorner(d, i, j, c) ==
  /\ d = "W"
  /\ ~IsZero(AlongU(d, i, IF c \in {1, 3} THEN MinusOne ELSE One))
  /\ ~IsZero(AlongV(d, j, IF c \in {1, 2} THEN MinusOne ELSE One))

\* <<kind, index from 0, the component>>
Where(t, f) ==
  LET k == f[1]  d == f[2]  i == f[3]  j == f[4]
      cs == {c \in 1..4 : AtCorner(d, i, j, c)}
      ss == {c \in 1..4 : OnSide(d, i, j, c)}
  IN IF cs # {} THEN LET c == CHOOSE x \in cs : TRUE IN <<"node", c - 1, Corners(t.el[k].rect)[c]>>
     ELSE IF ss # {} THEN LET c == CHOOSE x \in ss : TRUE IN <<"edge", c - 1, Sides(t.el[k].rect)[c]>>
     ELSE <<"elem", 0, <<>>>>
\* no function lives on two components of the same kind, so the choice above is none
Unique(f) == /\ Cardinality({c \in 1..4 : AtCorner(f[2], f[3], f[4], c)}) <= 1
             /\ (\A c \in 1..4 : ~AtCorner(f[2], f[3], f[4], c)) => Cardinality({c \in 1..4 : OnSide(f[2], f[3], f[4], c)}) <= 1

\* the order along a side
OrderAlong(f, side) == IF side <= 1 THEN f[3] ELSE f[4]
Opposite(a, b) == a + b = 1 \/ a + b = 5
SameTrace(f, a, g, b) == f[2] = g[2] /\ OrderAlong(f, a) = OrderAlong(g, b)
Answer(t, f, g) ==
  LET p == Where(t, f)  q == Where(t, g) IN
  IF p[1] # "edge" \/ q[1] # "edge" \/ p[3] # q[3] THEN "panic"
  ELSE IF SameTrace(f, p[2], g, q[2]) /\ Opposite(p[2], q[2]) THEN "yes" ELSE "no"
\* functions compare equal when they are the same function seen from the same component
SameSpec(t, f, g) == f[2] = g[2] /\ f[3] = g[3] /\ f[4] = g[4] /\ LET p == Where(t, f)  q == Where(t, g) IN
                       p[1] = q[1] /\ p[2] = q[2] /\ p[3] = q[3]
=============================================================================
