--------------------------- MODULE FemCacheTrace ---------------------------
(* One transition per recorded event of a session with the basis-function   *)
(* cache.  The state is the history variables of FemCache: which requests   *)
(* are under way, which keys have been answered, which constructors ran and *)
(* which of them panicked.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i,
          pend,      \* <<thread>> -> its request: [g, x, y, seen: answered before, boom: its constructor panicked]
          built,     \* serial number -> <<group, what>>, of the constructors that finished or still run
          done,      \* <<group, x, y>> answered
          sick,      \* groups in which a constructor has panicked
          bad
vars == <<s, i, pend, built, done, sick, bad>>
Sess == Trace[s]
Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " event=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE

\* the smallest power of two that is at least 4 * order
RECURSIVE Pow2(_, _)
Pow2(p, n) == IF p >= n THEN p ELSE Pow2(2 * p, n)
Points(g, d) == IF g.n[d] # 0 THEN g.n[d] ELSE Pow2(1, 4 * g.o[d])
Rule(g, n) == g.rules[CHOOSE k \in DOMAIN g.rules : g.rules[k][1] = n]
Group(k) == Sess.groups[k + 1]
\* the settings of every sampler and the weights it gave
HeadOk == \A k \in DOMAIN Sess.groups : LET g == Sess.groups[k] IN
            /\ Ok("orders", g.set = g.o, g.set)
            /\ Ok("own points", g.own = <<Points(g, 1), Points(g, 2)>>, g.own)
            /\ \A d \in 1..2 : Ok("weights", g.w[d] = Rule(g, Points(g, d))[3], <<k, d>>)

\* a cell sampled over itself is the cell
Norm(x, y) == IF y = x THEN "" ELSE y
WhatOk(g, w) ==
  /\ Ok("points in u", w.pu = Rule(g, Points(g, 1))[2], w)
  /\ Ok("points in v", w.pv = Rule(g, Points(g, 2))[2], w)
  /\ Ok("orders", w.o = g.o, w)
  /\ Ok("second derivatives", w.d2 = g.d2, w)

Right(e) ==
  LET g == Group(e.g) IN
  CASE e.k = "req" -> TRUE
    [] e.k = "build" ->
         /\ WhatOk(g, e.w)
         \* once such a request has been answered, a healthy sampler does not build again
         /\ Ok("built again", e.g \in sick \/ ~(e.t \in DOMAIN pend /\ e.w.x = pend[e.t].x /\ e.w.y = pend[e.t].y /\ pend[e.t].seen), e)
    [] e.k = "boom" -> TRUE
    [] e.k = "ret" ->
         LET p == pend[e.t] IN
         /\ WhatOk(g, e.w)
         /\ Ok("function of another cell", e.w.x = p.x /\ Norm(e.w.x, e.w.y) = Norm(p.x, p.y), <<p, e.w>>)
         /\ Ok("origin of the function", e.w.n \in DOMAIN built /\ built[e.w.n][1] = e.g /\ built[e.w.n][2] = e.w, <<p, e.w>>)
    [] e.k = "fail" -> Ok("a request failed whose constructor did not panic", pend[e.t].boom, pend[e.t])
    [] e.k = "curl" -> Ok("differs from direct construction", e.c = e.d, <<pend[e.t], e>>)

With(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
PendAfter(e) ==
  CASE e.k = "req" -> With(pend, e.t, [g |-> e.g, x |-> e.x, y |-> e.y, seen |-> <<e.g, e.x, e.y>> \in done, boom |-> FALSE])
    [] e.k = "boom" -> IF e.t \in DOMAIN pend THEN [pend EXCEPT ![e.t].boom = TRUE] ELSE pend
    [] OTHER -> pend
DoneAfter(e) == IF e.k = "ret" \/ (e.k = "curl" /\ e.c # "panic") THEN done \cup {<<e.g, pend[e.t].x, pend[e.t].y>>} ELSE done

Init == s \in DOMAIN Trace /\ i = 0 /\ pend = <<>> /\ built = <<>> /\ done = {} /\ sick = {} /\ bad = FALSE
Next ==
  /\ ~bad /\ i < Len(Sess.log)
  /\ i' = i + 1 /\ s' = s
  /\ LET e == Sess.log[i + 1]  ok == (i = 0 => HeadOk) /\ Right(e) IN
     /\ bad' = ~ok
     /\ pend' = IF ok THEN PendAfter(e) ELSE pend
     /\ built' = IF ok /\ e.k = "build" THEN With(built, e.w.n, <<e.g, e.w>>) ELSE built
     /\ done' = IF ok THEN DoneAfter(e) ELSE done
     /\ sick' = IF ok /\ e.k = "boom" THEN sick \cup {e.g} ELSE sick
     /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
        ELSE IF i + 1 = Len(Sess.log) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
