------------------------------- MODULE FemGeo -------------------------------
(* The geometric value types: points whose coordinates are told apart down  *)
(* to the uniqueness accuracy of 1e-12, and the vectors and matrices of     *)
(* parametric space.                                                        *)
EXTENDS Integers, Sequences, BigRat

\* A coordinate is <<n, k, d>> and stands for n + k * 1e-12 + d * 1e-15, where d is less than half a
\* grain of 1e-12 (so that it never matters) and k fewer than 1e6 grains.
Value(c) == Add(c[1], Add(Mul(c[2], Rat(1, Power(10, 12))), Mul(c[3], Rat(1, Power(10, 15)))))
Cmp(a, b) ==
  IF a[1] # b[1] THEN (IF a[1] < b[1] THEN "lt" ELSE "gt")
  ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN "lt" ELSE "gt") ELSE "eq"
SamePoint(p, q) == Cmp(p[1], q[1]) = "eq" /\ Cmp(p[2], q[2]) = "eq"
Away(a, b) == Abs(Sub(Value(a), Value(b)))
\* the direction of the segment between two different points; either answer on the diagonal
Directions(p, q) ==
  LET dx == Away(p[1], q[1])
      dy == Away(p[2], q[2])
      slack == Mul(Max2(dx, dy), Rat(1, 1000000))
  IN IF Less(Add(dy, slack), dx) THEN {"U"} ELSE IF Less(Add(dx, slack), dy) THEN {"V"} ELSE {"U", "V"}

\* vectors are pairs, matrices <<row, row>>
VAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
VMul(a, b) == <<Mul(a[1], b[1]), Mul(a[2], b[2])>>
VDiv(a, b) == <<Quot(a[1], b[1]), Quot(a[2], b[2])>>
VScale(a, x) == <<Mul(a[1], x), Mul(a[2], x)>>
Dot(a, b) == Add(Mul(a[1], b[1]), Mul(a[2], b[2]))
Det(m) == Sub(Mul(m[1][1], m[2][2]), Mul(m[1][2], m[2][1]))
Transpose(m) == <<<<m[1][1], m[2][1]>>, <<m[1][2], m[2][2]>>>>
MScale(m, x) == <<VScale(m[1], x), VScale(m[2], x)>>
Inverse(m) == LET a == <<<<m[2][2], Opp(m[1][2])>>, <<Opp(m[2][1]), m[1][1]>>>> IN MScale(a, Quot(1, Det(m)))
Apply(m, v) == <<Dot(m[1], v), Dot(m[2], v)>>
Product(m, n) == LET t == Transpose(n) IN <<Apply(t, m[1]), Apply(t, m[2])>>
VSame(a, b) == Same(a[1], b[1]) /\ Same(a[2], b[2])
MSame(m, n) == VSame(m[1], n[1]) /\ VSame(m[2], n[2])
=============================================================================
