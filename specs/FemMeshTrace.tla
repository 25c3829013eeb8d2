--------------------------- MODULE FemMeshTrace ---------------------------
(* Checks recorded executions of the real library against FemMesh.          *)
(* One behaviour per session of the trace file; each event carries the      *)
(* operation, its outcome and views of the real mesh afterwards, which must *)
(* equal the views of the specification's mesh.                             *)
EXTENDS FemMesh, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i, m, other, bad
vars == <<s, i, m, other, bad>>

Has(r, f) == f \in DOMAIN r
SeqSet(q) == {q[x] : x \in DOMAIN q}

\* ---------------------------------------------------------------- outcomes

Sess == Trace[s]
Lim == [gt |-> Sess.lim[1], half_lt |-> Sess.lim[2], half_le |-> Sess.lim[3]]
MatOf(root) == Sess.mats[root + 1]

Start ==
  LET b == BaseMesh(Sess.cells, 1, 1)
      extra == IF Sess.src \in {"unit", "blank"} THEN {} ELSE SeqSet(Sess.nodes) \ DOMAIN b.nd
  IN [b EXCEPT !.nd = [p \in extra |-> NewNode(TRUE)] @@ @]

Stay(out) == [m |-> m, other |-> other, out |-> out]
HGo(items) == IF HAdmissible(m, Lim, items) THEN [m |-> HApply(m, items), other |-> other, out |-> {"ok"}]
              ELSE Stay({"err"})
Loud(r) == IF r.out = {"err"} THEN [r EXCEPT !.out = {"panic"}] ELSE r
PGo(items) == IF PAdmissible(m, items) THEN [m |-> PApply(m, items), other |-> other, out |-> {"ok"}]
              ELSE Stay({"err"})
SGo(items) == IF SAdmissible(m, items) THEN [m |-> SApply(m, items), other |-> other, out |-> {"ok"}]
              ELSE Stay({"err"})

\* closures are only asked about cells that exist
Known(sel) == SelectSeq(sel, LAMBDA it : it[1] \in DOMAIN m.el)
AllKeys == SetToSeq(DOMAIN m.el)
EligKeys == SetToSeq({k \in DOMAIN m.el : Eligible(m, Lim, k)})

Expect(e) ==
  CASE e.op \in {"init", "look"} -> Stay({"ok"})
    [] e.op = "fork" -> [m |-> m, other |-> <<m>>, out |-> {"ok"}]
    [] e.op = "swap" -> IF other = <<>> THEN Stay({"nofork"})
                        ELSE [m |-> other[1], other |-> <<m>>, out |-> {"ok"}]
    [] e.op = "hx" -> HGo(e.items)
    [] e.op = "hl" -> IF HasDup(e.ids) THEN Stay({"err"}) ELSE HGo([x \in DOMAIN e.ids |-> <<e.ids[x], e.tok>>])
    [] e.op = "hg" -> LET ks == EligKeys IN Loud(HGo([x \in DOMAIN ks |-> <<ks[x], e.tok>>]))
    [] e.op = "hf" -> Loud(HGo(SelectSeq(Known(e.sel), LAMBDA it : Eligible(m, Lim, it[1]))))
    [] e.op = "px" -> PGo(e.items)
    [] e.op = "pl" -> IF HasDup(e.ids) THEN Stay({"err"}) ELSE PGo([x \in DOMAIN e.ids |-> <<e.ids[x], e.d[1], e.d[2]>>])
    [] e.op = "pg" -> LET ks == AllKeys IN PGo(ClampItems(m, [x \in DOMAIN ks |-> <<ks[x], e.d[1], e.d[2]>>]))
    [] e.op = "pf" -> PGo(ClampItems(m, Known(e.sel)))
    [] e.op = "pb" -> PGo(Known(e.sel))
    [] e.op = "sx" -> SGo(e.items)
    [] e.op = "sf" -> SGo(Known(e.sel))
    [] e.op = "sl" -> SGo([x \in DOMAIN e.ids |-> <<e.ids[x], e.o[1], e.o[2]>>])
    [] e.op = "sg" -> LET ks == AllKeys IN SGo([x \in DOMAIN ks |-> <<ks[x], e.o[1], e.o[2]>>])

\* ------------------------------------------------------------------- views

Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " event=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))

\* compare a logged sequence, taken as a set without repetitions, with the expected set
SameSet(what, log, exp) ==
  LET got == SeqSet(log) IN
  IF got = exp /\ Len(log) = Cardinality(exp) THEN TRUE
  ELSE LET extra == got \ exp
           missing == exp \ got
       IN IF extra = {} /\ missing = {} THEN Say(what, "repeated entries") /\ FALSE
          ELSE Say(what, [unexpected |-> IF extra = {} THEN <<>> ELSE <<CHOOSE x \in extra : TRUE>>,
                          missing |-> IF missing = {} THEN <<>> ELSE <<CHOOSE x \in missing : TRUE>>]) /\ FALSE

Equal(what, got, exp) == IF got = exp THEN TRUE ELSE Say(what, [got |-> got, expected |-> exp]) /\ FALSE

NoDup(q) == Len(q) = Cardinality(SeqSet(q))

ExpE(t, k) ==
  LET e == t.el[k]
      anc == Reverse(Ancestors(t, k))
  IN [k |-> k, id |-> TRUE, par |-> e.par, anc |-> anc, ch |-> e.ch, has |-> e.ch # <<>>,
      pts |-> Corners(e.rect), ed |-> Sides(e.rect), lu |-> e.lu, lv |-> e.lv, root |-> e.root,
      mat |-> MatOf(e.root), pr |-> ParaRange(e.path),
      rel |-> [x \in DOMAIN anc |-> ParaRange(SubSeq(e.path, x, Len(e.path)))]]

CheckE(t, log) == SameSet("E", log, {ExpE(t, k) : k \in DOMAIN t.el})

ExpN(t, p) == [p |-> p, id |-> TRUE, b |-> t.nd[p].b, q |-> t.nd[p].q, u |-> TRUE]
CheckN(t, log) ==
  SameSet("N", [x \in DOMAIN log |->
             [p |-> log[x].p, id |-> log[x].id, b |-> log[x].b, q |-> [c \in DOMAIN log[x].q |-> SeqSet(log[x].q[c])],
              u |-> \A c \in DOMAIN log[x].q : NoDup(log[x].q[c])]],
          {ExpN(t, p) : p \in DOMAIN t.nd})

ExpS(t, e) ==
  LET r == t.ed[e] IN
  [e |-> e, id |-> TRUE, b |-> r.b, dir |-> EdgeDir(e), len |-> EdgeLen(e), par |-> r.par, ch |-> r.ch,
   has |-> r.ch # <<>>, mid |-> r.mid, s1 |-> r.s[1], s2 |-> r.s[2], one |-> ~Supported(t, e), u |-> TRUE]
CheckS(t, log) ==
  SameSet("S", [x \in DOMAIN log |->
             LET r == log[x] IN
             [e |-> r.e, id |-> r.id, b |-> r.b, dir |-> r.dir, len |-> r.len, par |-> r.par, ch |-> r.ch,
              has |-> r.has, mid |-> r.mid, s1 |-> SeqSet(r.s1), s2 |-> SeqSet(r.s2), one |-> r.one,
              u |-> NoDup(r.s1) /\ NoDup(r.s2)]],
          {ExpS(t, e) : e \in DOMAIN t.ed})

CheckA(t, log) ==
  /\ Equal("A.inactive-partner", log.bad, 0)
  /\ SameSet("A", log.act, {LET pr == ActivePair(t, e) IN [e |-> e, a |-> pr, o |-> <<pr[2], pr[1]>>] : e \in ActiveEdges(t)})

ExpWin(t, k) == LET w == Window(t, k) IN <<w[1][1], w[1][2], w[2][1], w[2][2]>>
CheckP(t, log) ==
  /\ SameSet("P", log.o, {[k |-> k, ni |-> t.el[k].ni, nj |-> t.el[k].nj, w |-> ExpWin(t, k)] : k \in DOMAIN t.el})
  /\ Equal("P.max", log.max, MaxOrders(t))

FunsAt(ds, k) == {f \in UNION ds : f[1] = k}

CheckD(t, log) ==
  IF log.res # "ok" THEN Say("D", log.res) /\ FALSE
  ELSE LET exp == Dofs(t)
           all == UNION exp
       IN
       /\ Equal("D.ids", {x \in DOMAIN log.dofs : ~log.dofs[x].id}, {})
       /\ Equal("D.back", {x \in DOMAIN log.dofs : \E y \in DOMAIN log.dofs[x].f : ~log.dofs[x].f[y][5]}, {})
       /\ Equal("D.twice", {x \in DOMAIN log.dofs : ~NoDup(log.dofs[x].f)}, {})
       /\ SameSet("D", [x \in DOMAIN log.dofs |-> {SubSeq(log.dofs[x].f[y], 1, 4) : y \in DOMAIN log.dofs[x].f}], exp)
       /\ SameSet("D.n", log.n, {[k |-> k, n |-> Cardinality({f \in all : f[1] = k})] : k \in DOMAIN t.el})

ExpQEl(t, k) ==
  LET d == Descendants(t, k)  a == Ancestors(t, k)  cs == Corners(t.el[k].rect) IN
  [k |-> k, pts |-> cs, diag |-> <<cs[1], cs[4]>>, d0 |-> d, d1 |-> d \cup {k}, a0 |-> a, a1 |-> <<k>> \o a,
   ref |-> IF Eligible(t, Lim, k) THEN "yes" ELSE "no", w |-> ExpWin(t, k), u |-> TRUE]
ExpQEd(t, e) ==
  LET d == EdgeDescendants(t, e) IN [e |-> e, pts |-> EdgeEnds(e), d0 |-> d, d1 |-> d \cup {e}, u |-> TRUE]
CheckQ(t, log) ==
  /\ SameSet("Q.elem", [x \in DOMAIN log.el |-> LET r == log.el[x] IN
        [k |-> r.k, pts |-> r.pts, diag |-> r.diag, d0 |-> SeqSet(r.d0), d1 |-> SeqSet(r.d1), a0 |-> r.a0, a1 |-> r.a1,
         ref |-> r.ref, w |-> r.w, u |-> NoDup(r.d0) /\ NoDup(r.d1)]],
        {ExpQEl(t, k) : k \in DOMAIN t.el})
  /\ SameSet("Q.edge", [x \in DOMAIN log.ed |-> LET r == log.ed[x] IN
        [e |-> r.e, pts |-> r.pts, d0 |-> SeqSet(r.d0), d1 |-> SeqSet(r.d1), u |-> NoDup(r.d0) /\ NoDup(r.d1)]],
        {ExpQEd(t, e) : e \in DOMAIN t.ed})
  /\ Equal("Q.missing", {log.bad[x] : x \in {y \in DOMAIN log.bad : log.bad[y].r # "err"}}, {})
  /\ Equal("Q.domain", log.dom, "ok")
  /\ LET all == UNION Dofs(t)
         cnt == [k \in DOMAIN t.el |-> Cardinality({f \in all : f[1] = k})]
         grp(S) == {[k |-> j, n |-> cnt[j], own |-> TRUE] : j \in S}
     IN SameSet("Q.spec", [x \in DOMAIN log.sp |-> LET r == log.sp[x] IN
           [k |-> r.k, loc |-> SeqSet(r.loc), desc |-> SeqSet(r.desc), anc |-> r.anc, get |-> r.get,
            u |-> NoDup(r.loc) /\ NoDup(r.desc)]],
        {LET a == Ancestors(t, k) IN
         [k |-> k, loc |-> {f \in all : f[1] = k}, desc |-> grp(Descendants(t, k)),
          anc |-> [x \in DOMAIN a |-> [k |-> a[x], n |-> cnt[a[x]], own |-> TRUE]], get |-> TRUE, u |-> TRUE] : k \in DOMAIN t.el})

YesNo(b) == IF b THEN "yes" ELSE "no"
LevelKey(t, e, k) == IF EdgeDir(e) = "U" THEN <<t.el[k].lv, t.el[k].lu>> ELSE <<t.el[k].lu, t.el[k].lv>>
CheckJ(t, log) ==
  IF log.res # "ok" THEN Say("J", log.res) /\ FALSE
  ELSE
  /\ Equal("J.export to a full device, to a missing directory", log.lost, <<"err", "err">>)
  /\ SameSet("J.top", log.top, {"Elements", "Elems", "Nodes", "Edges"})
  /\ Equal("J.ids", log.ids, <<TRUE, TRUE, TRUE, TRUE>>)
  /\ SameSet("J.elements", log.elements, {[id |-> x - 1, mat |-> MatOf(x - 1)] : x \in DOMAIN Sess.cells})
  /\ SameSet("J.elems", [x \in DOMAIN log.elems |-> LET r == log.elems[x] IN
        [k |-> r.k, root |-> r.root, par |-> r.par, active |-> r.active, pts |-> r.pts, ed |-> r.ed,
         ni |-> r.ni, nj |-> r.nj, lu |-> r.lu, lv |-> r.lv, ch |-> r.ch]],
        {LET e == t.el[k] IN
         [k |-> k, root |-> e.root, par |-> e.par, active |-> e.kind = "leaf", pts |-> Corners(e.rect), ed |-> Sides(e.rect),
          ni |-> e.ni, nj |-> e.nj, lu |-> e.lu, lv |-> e.lv, ch |-> e.ch] : k \in DOMAIN t.el})
  /\ SameSet("J.nodes", [x \in DOMAIN log.nodes |-> LET r == log.nodes[x] IN
        [p |-> r.p, b |-> r.b, q |-> [c \in DOMAIN r.q |-> SeqSet(r.q[c])], u |-> \A c \in DOMAIN r.q : NoDup(r.q[c])]],
        {[p |-> p, b |-> YesNo(t.nd[p].b), q |-> t.nd[p].q, u |-> TRUE] : p \in DOMAIN t.nd})
  /\ LET act == ActiveEdges(t)
         side(e, x) == {[k |-> k, l |-> LevelKey(t, e, k)] : k \in t.ed[e].s[x]}
     IN SameSet("J.edges", [x \in DOMAIN log.edges |-> LET r == log.edges[x] IN
        [pts |-> r.pts, b |-> r.b, dir |-> r.dir, par |-> r.par, ch |-> r.ch, s1 |-> SeqSet(r.s1), s2 |-> SeqSet(r.s2),
         ns |-> r.ns, a |-> r.a, u |-> NoDup(r.s1) /\ NoDup(r.s2)]],
        {LET r == t.ed[e] IN
         [pts |-> EdgeEnds(e), b |-> YesNo(r.b), dir |-> EdgeDir(e) \o "-Dir", par |-> r.par, ch |-> r.ch,
          s1 |-> side(e, 1), s2 |-> side(e, 2), ns |-> 2, a |-> IF e \in act THEN ActivePair(t, e) ELSE <<>>,
          u |-> TRUE] : e \in DOMAIN t.ed})

MeshView(t, e, v) ==
  CASE v = "E" -> CheckE(t, e.E)
    [] v = "N" -> CheckN(t, e.N)
    [] v = "S" -> CheckS(t, e.S)
    [] v = "A" -> CheckA(t, e.A)
    [] v = "P" -> CheckP(t, e.P)
    [] v = "D" -> CheckD(t, e.D)
    [] v = "Q" -> CheckQ(t, e.Q)
    [] v = "J" -> CheckJ(t, e.J)

\* a seam for modules that add views (FemNumTrace)
CheckView(t, e, v) == MeshView(t, e, v)

CheckEvent(t, e) ==
  /\ Equal("broken", IF Has(e, "broken") THEN e.broken ELSE "", "")
  /\ \A x \in DOMAIN e.views : CheckView(t, e, e.views[x])

\* -------------------------------------------------------------- behaviours

Init == /\ s \in DOMAIN Trace
        /\ i = 0 /\ other = <<>>
        /\ m = Start
        /\ IF Sess.load = "ok" /\ Len(Sess.ev) > 0 THEN bad = FALSE
           ELSE /\ bad = TRUE /\ Say("load", Sess.load) /\ PrintT("VERDICT " \o Sess.sid \o " BAD")

Next ==
  /\ ~bad /\ i < Len(Sess.ev)
  /\ LET e == Sess.ev[i + 1]
         x == Expect(e)
         ok == /\ Equal("outcome of " \o e.op, IF e.res \in x.out THEN "" ELSE e.res, "")
               /\ CheckEvent(x.m, e)
     IN /\ m' = x.m
        /\ other' = x.other
        /\ bad' = ~ok
        /\ i' = i + 1
        /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
           ELSE IF i + 1 = Len(Sess.ev) THEN PrintT("VERDICT " \o Sess.sid \o " OK")
           ELSE TRUE
  /\ s' = s

Spec == Init /\ [][Next]_vars
OnlyPosition == <<s, i, bad>>
=============================================================================
