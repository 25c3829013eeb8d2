------------------------------- MODULE FemAlg -------------------------------
(* The value types requests are made of: h-refinement tokens under +=,      *)
(* p-deltas under +=, windows, orders, levels and parametric sub-ranges.    *)
EXTENDS FemMesh

FoldTok(ts) == FoldLeft(PlusAssign, ts[1], Tail(ts))
SumC(ps, c) == FoldLeft(LAMBDA a, p : a + p[c], 0, ps)
ClampTo(d, lo, hi) == MaxOf(lo, MinOf(hi, d))

\* PolyOrders::refine / ::set on orders <<ni, nj>>
RefineOrders(o, d) ==
  IF InRange(o[1] + d[1]) /\ InRange(o[2] + d[2]) THEN [r |-> "ok", o |-> <<o[1] + d[1], o[2] + d[2]>>] ELSE [r |-> "err", o |-> o]
SetOrders(o, n) == IF InRange(n[1]) /\ InRange(n[2]) THEN [r |-> "ok", o |-> n] ELSE [r |-> "err", o |-> o]

\* orders of the functions of one cell and direction
OrderPairs(o, dir) ==
  CASE dir = "U" -> {<<a, b>> : a \in 0..(o[1] - 1), b \in 0..o[2]}
    [] dir = "V" -> {<<a, b>> : a \in 0..o[1], b \in 0..(o[2] - 1)}
    [] dir = "W" -> {<<a, b>> : a \in 0..o[1], b \in 0..o[2]}

Levels(l, tok) == CASE tok[1] = "T" -> <<l[1] + 1, l[2] + 1>> [] tok[1] = "U" -> <<l[1] + 1, l[2]>> [] tok[1] = "V" -> <<l[1], l[2] + 1>>

\* laws the algebra must satisfy (checked exhaustively by FemAlgMC)
Tok3 == {<<a, b, c>> : a, b, c \in HTokens}
AlgLaws ==
  /\ \A t \in Tok3 : /\ FoldTok(t) = FoldTok(<<t[2], t[1], t[3]>>) /\ FoldTok(t) = FoldTok(<<t[1], t[3], t[2]>>)
                     /\ FoldTok(t) = PlusAssign(t[1], FoldTok(<<t[2], t[3]>>))
  /\ \A n \in 1..MaxOrder, d \in -128..127 :
        /\ InRange(n + Clamp(d, n))
        /\ (InRange(n + d) <=> Clamp(d, n) = d)
        /\ (1 - n <= d /\ d <= MaxOrder - n) <=> InRange(n + d)
=============================================================================
