---------------------------- MODULE FemErrTrace ----------------------------
(* Judges what the errors of rejected requests name.                         *)
EXTENDS FemNumTrace, FemErr

Why(w) == IF w.v \in {"missing", "ineligible", "twice", "child", "window"} THEN <<w.v, w.at, <<>>>>
          ELSE IF w.v = "short" THEN <<w.v, w.at, w.e>>
          ELSE IF w.v = "orders" THEN <<w.v, w.at, w.o>> ELSE <<w.v>>

Causes(e) ==
  CASE e.op = "hx" -> HCauses(m, Lim, e.items, FALSE)
    [] e.op = "hl" -> HCauses(m, Lim, [x \in DOMAIN e.ids |-> <<e.ids[x], e.tok>>], TRUE)
    [] e.op = "px" -> PCauses(m, e.items, FALSE)
    [] e.op = "pl" -> PCauses(m, [x \in DOMAIN e.ids |-> <<e.ids[x], e.d[1], e.d[2]>>], TRUE)
    [] e.op = "pb" -> PCauses(m, Known(e.sel), FALSE)
    [] e.op = "sx" -> SCauses(m, e.items)
    [] e.op = "sf" -> SCauses(m, Known(e.sel))
    [] e.op = "sl" -> SCauses(m, [x \in DOMAIN e.ids |-> <<e.ids[x], e.o[1], e.o[2]>>])
    [] e.op = "sg" -> SCauses(m, <<<<AllKeys[1], e.o[1], e.o[2]>>>>)
    [] OTHER -> {}

\* judged on the mesh the request was made on
CheckWhy(e) ==
  IF e.res # "err" THEN TRUE
  ELSE IF ~Has(e, "why") THEN Say("error without a cause", e.op) /\ FALSE
  ELSE IF ~e.why.tx THEN Say("the text of the error does not say what it names", e.why) /\ FALSE
  ELSE IF Why(e.why) \in Causes(e) THEN TRUE
  ELSE Say("the error of " \o e.op \o " names a cause that does not hold", [named |-> e.why, holding |-> Causes(e)]) /\ FALSE

\* lookups of things that do not exist
CheckX(log) ==
  /\ Equal("X.elem", {log.el[x] : x \in DOMAIN log.el} \ {<<"elem", TRUE>>}, {})
  /\ Equal("X.edge", {log.ed[x] : x \in DOMAIN log.ed} \ {<<"edge", TRUE>>}, {})

\* field spaces: only the set of quantity names matters here
FieldNames(st, e) ==
  CASE e.f = "xy" /\ e.res = "ok" -> st \cup {e.names[1], e.names[2]}
    [] e.f \in {"map", "two"} /\ e.res = "ok" -> st \cup {e.to}
    [] OTHER -> st
FieldWhy(st, e, n) ==
  CASE e.f = "xy" -> IF e.n = n THEN {} ELSE {<<"size", <<n, e.n>>, "">>}
    [] e.f = "map" -> IF e.a \in st THEN {} ELSE {<<"missing", <<>>, e.a>>}
    [] e.f = "two" -> {<<"missing", <<>>, x>> : x \in {e.a, e.b} \ st}
    [] e.f = "some" -> {<<"missing", <<>>, e.names[x]>> : x \in {y \in DOMAIN e.names : e.names[y] \notin st}}
    [] OTHER -> {}
CheckFieldErrs(r) ==
  IF r.res # "ok" THEN TRUE
  ELSE FoldLeft(LAMBDA st, e :
         [qs |-> FieldNames(st.qs, e),
          ok |-> st.ok /\ LET c == FieldWhy(st.qs, e, Len(r.dofs)) IN
                 /\ Equal("outcome of field " \o e.f, e.res, IF c = {} THEN "ok" ELSE "err")
                 /\ (e.res = "err" =>
                      IF ~Has(e, "why") THEN Say("field error without a cause", e.f) /\ FALSE
                      ELSE IF e.why.tx /\ <<e.why.v, e.why.n, e.why.q>> \in c THEN TRUE
                      ELSE Say("the error of field " \o e.f \o " names a cause that does not hold", [named |-> e.why, holding |-> c]) /\ FALSE)],
         [qs |-> {}, ok |-> TRUE], r.do).ok

ErrView(t, e, v) ==
  CASE v = "X" -> CheckX(e.X)
    [] v = "f" -> \A x \in DOMAIN e.f : CheckFieldErrs(e.f[x])
    [] OTHER -> NumView(t, e, v)
\* CheckEvent sees the mesh after the event; a rejected request leaves it unchanged
ErrEvent(t, e) ==
  /\ Equal("broken", IF Has(e, "broken") THEN e.broken ELSE "", "")
  /\ CheckWhy(e)
  /\ \A x \in DOMAIN e.views : ErrView(t, e, e.views[x])
=============================================================================
