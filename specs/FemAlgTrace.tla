----------------------------- MODULE FemAlgTrace -----------------------------
(* One state per recorded evaluation of the library's value types.            *)
EXTENDS FemAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
vars == <<s, i, bad>>
Sess == Trace[s]

Fits(d) == -128 <= d /\ d <= 127
\* expected answer of each kind of evaluation; the log carries the same record in field "out"
Expect(e) ==
  CASE e.f = "hadd" -> FoldTok(e.t)
    [] e.f = "hctor" -> IF e.x <= 1 THEN e.k \o ToString(e.x) ELSE "err"
    [] e.f = "prefine" -> RefineOrders(e.o, <<SumC(e.p, 1), SumC(e.p, 2)>>)
    [] e.f = "psum" -> <<SumC(e.p, 1), SumC(e.p, 2)>>
    [] e.f = "pclamp" -> <<ClampTo(SumC(e.p, 1), e.w[1], e.w[2]), ClampTo(SumC(e.p, 2), e.w[3], e.w[4])>>
    [] e.f = "pin" -> e.w[1] <= SumC(e.p, 1) /\ SumC(e.p, 1) <= e.w[2] /\ e.w[3] <= SumC(e.p, 2) /\ SumC(e.p, 2) <= e.w[4]
    [] e.f = "pdir" -> IF e.d = "U" THEN <<e.x, 0>> ELSE <<0, e.x>>
    [] e.f = "oset" -> SetOrders(e.o, e.n)
    [] e.f = "onew" -> IF InRange(e.n[1]) /\ InRange(e.n[2]) THEN [try |-> "ok", new |-> "ok", o |-> e.n]
                       ELSE [try |-> "err", new |-> "panic", o |-> <<0, 0>>]
    [] e.f = "omax" -> <<MaxOf(e.o[1], e.n[1]), MaxOf(e.o[2], e.n[2])>>
    [] e.f = "oarr" -> e.o
    [] e.f = "lev" -> Levels(e.l, e.t)
    [] e.f = "rank" -> IF e.d = "U" THEN <<e.l[2], e.l[1]>> ELSE <<e.l[1], e.l[2]>>
    [] e.f = "sub" -> SubRect(e.loc, e.r)
    [] e.f = "idx" -> (CHOOSE x \in 1..4 : \E kd \in {"T", "U", "V"} : x <= Len(ChildLocs[kd]) /\ ChildLocs[kd][x] = e.loc) - 1
Right(e) ==
  IF e.f = "perm" THEN Range(e.out) = OrderPairs(e.o, e.d) /\ Len(e.out) = Cardinality(OrderPairs(e.o, e.d))
  ELSE e.out = Expect(e)

Init == s \in DOMAIN Trace /\ i = 0 /\ bad = FALSE
Next ==
  /\ ~bad /\ i < Len(Sess.ev)
  /\ i' = i + 1 /\ s' = s
  /\ LET e == Sess.ev[i + 1]
         ok == Right(e)
     IN /\ bad' = ~ok
        /\ IF ~ok THEN /\ PrintT("MISMATCH " \o Sess.sid \o " " \o ToString(e) \o
                                 (IF e.f = "perm" THEN "" ELSE " expected " \o ToString(Expect(e))))
                       /\ PrintT("VERDICT " \o Sess.sid \o " BAD")
           ELSE IF i + 1 = Len(Sess.ev) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
