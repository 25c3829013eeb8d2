------------------------------ MODULE FemMesh ------------------------------
(***************************************************************************)
(* The hp-refinement state of a fem_2d mesh and the operations on it.      *)
(*                                                                         *)
(* A mesh value is a record                                                *)
(*   el : element key -> [par, loc, path, rect, lu, lv, ni, nj, root, ch,  *)
(*                        kind]                                            *)
(*   nd : point <<x, y>> -> [b, q]     q[c] = elements having corner c here*)
(*   ed : segment <<x0,y0,x1,y1>> -> [b, s, par, ch, mid]                  *)
(*                                     s[1] / s[2] = elements below-left / *)
(*                                     above-right of the segment          *)
(* Element keys are path strings ("r0.SW.E"); points and segments are      *)
(* integer coordinates, so a mesh value carries no numbering at all.       *)
(*                                                                         *)
(* The operations are written the way the implementation works (edges are  *)
(* split on demand when a neighbour needs them, adjacency lists are        *)
(* extended as elements are connected); module FemMeshProps states         *)
(* independently, and declaratively, what the result must be.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

MaxOrder == 20            \* overridden by the trace with the crate's constant
ParaUnit == 16777216      \* parametric coordinate 1.0 (so 24 bisections are exact)

(* ------------------------------- geometry ------------------------------- *)

ChildLocs == [T |-> <<"SW", "SE", "NW", "NE">>, U |-> <<"W", "E">>, V |-> <<"S", "N">>]

Mid(a, b) == (a + b) \div 2

SubRect(loc, r) ==
  LET xm == Mid(r[1], r[3])  ym == Mid(r[2], r[4]) IN
  CASE loc = "SW" -> <<r[1], r[2], xm, ym>>
    [] loc = "SE" -> <<xm, r[2], r[3], ym>>
    [] loc = "NW" -> <<r[1], ym, xm, r[4]>>
    [] loc = "NE" -> <<xm, ym, r[3], r[4]>>
    [] loc = "W"  -> <<r[1], r[2], xm, r[4]>>
    [] loc = "E"  -> <<xm, r[2], r[3], r[4]>>
    [] loc = "S"  -> <<r[1], r[2], r[3], ym>>
    [] loc = "N"  -> <<r[1], ym, r[3], r[4]>>

\* corners in the documented order SW, SE, NW, NE; sides in the order S, N, W, E
Corners(r) == << <<r[1], r[2]>>, <<r[3], r[2]>>, <<r[1], r[4]>>, <<r[3], r[4]>> >>
Sides(r) == << <<r[1], r[2], r[3], r[2]>>, <<r[1], r[4], r[3], r[4]>>,
               <<r[1], r[2], r[1], r[4]>>, <<r[3], r[2], r[3], r[4]>> >>

\* an element lies above/right (2) of its S and W sides, below/left (1) of its N and E sides
SideIndex == <<2, 1, 2, 1>>

EdgeDir(e) == IF e[2] = e[4] THEN "U" ELSE "V"
EdgeLen(e) == (e[3] - e[1]) + (e[4] - e[2])
EdgeMid(e) == <<Mid(e[1], e[3]), Mid(e[2], e[4])>>
Halves(e) == LET c == EdgeMid(e) IN << <<e[1], e[2], c[1], c[2]>>, <<c[1], c[2], e[3], e[4]>> >>
EdgeEnds(e) == << <<e[1], e[2]>>, <<e[3], e[4]>> >>

UnitPara == <<-ParaUnit, -ParaUnit, ParaUnit, ParaUnit>>
ParaRange(locs) == FoldLeft(LAMBDA r, l : SubRect(l, r), UnitPara, locs)

(* ----------------------- building and refining a mesh ------------------- *)

EmptyMesh == [el |-> <<>>, nd |-> <<>>, ed |-> <<>>]

RootKey(i) == "r" \o ToString(i)

\* connect element k (already with its rect) to its four corners and sides
Connect(m, k, rec) ==
  LET cs == Corners(rec.rect)
      ss == Sides(rec.rect)
  IN [ el |-> (k :> rec) @@ m.el,
       nd |-> [p \in DOMAIN m.nd |->
                 IF \E c \in 1..4 : cs[c] = p
                 THEN LET c == CHOOSE c \in 1..4 : cs[c] = p
                      IN [m.nd[p] EXCEPT !.q[c] = @ \cup {k}]
                 ELSE m.nd[p]],
       ed |-> [e \in DOMAIN m.ed |->
                 IF \E i \in 1..4 : ss[i] = e
                 THEN LET i == CHOOSE i \in 1..4 : ss[i] = e
                      IN [m.ed[e] EXCEPT !.s[SideIndex[i]] = @ \cup {k}]
                 ELSE m.ed[e]] ]

NewNode(b) == [b |-> b, q |-> <<{}, {}, {}, {}>>]
NewEdgeRec(b, par) == [b |-> b, s |-> <<{}, {}>>, par |-> par, ch |-> <<>>, mid |-> <<>>]

\* roots: a sequence of rectangles <<x0, y0, x1, y1>>; root i (from 0) gets key r<i>
BaseMesh(roots, ni, nj) ==
  LET pts == UNION {Range(Corners(roots[i])) : i \in DOMAIN roots}
      sgs == UNION {Range(Sides(roots[i])) : i \in DOMAIN roots}
      cellsAt(p) == Cardinality({i \in DOMAIN roots : p \in Range(Corners(roots[i]))})
      cellsOn(e) == Cardinality({i \in DOMAIN roots : e \in Range(Sides(roots[i]))})
      bare == [ el |-> <<>>,
                nd |-> [p \in pts |-> NewNode(cellsAt(p) < 4)],
                ed |-> [e \in sgs |-> NewEdgeRec(cellsOn(e) < 2, <<>>)] ]
      rec(i) == [par |-> "", loc |-> "", path |-> <<>>, rect |-> roots[i], lu |-> 0, lv |-> 0,
                 ni |-> ni, nj |-> nj, root |-> i - 1, ch |-> <<>>, kind |-> "leaf"]
  IN FoldLeft(LAMBDA m, i : Connect(m, RootKey(i - 1), rec(i)), bare, [i \in 1..Len(roots) |-> i])

SplitIfNeeded(m, e) ==
  IF m.ed[e].ch # <<>> THEN m
  ELSE LET h == Halves(e)
           c == EdgeMid(e)
           b == m.ed[e].b
       IN IF c \in DOMAIN m.nd \/ h[1] \in DOMAIN m.ed \/ h[2] \in DOMAIN m.ed
          THEN Assert(FALSE, <<"duplicate node or edge when splitting", e>>)
          ELSE [m EXCEPT !.nd = (c :> NewNode(b)) @@ @,
                         !.ed = (h[1] :> NewEdgeRec(b, e)) @@ (h[2] :> NewEdgeRec(b, e)) @@
                                [@ EXCEPT ![e].ch = h, ![e].mid = c]]

AddInteriorEdge(m, e) ==
  IF e \in DOMAIN m.ed THEN Assert(FALSE, <<"duplicate interior edge", e>>)
  ELSE [m EXCEPT !.ed = (e :> NewEdgeRec(FALSE, <<>>)) @@ @]

AddInteriorNode(m, p) ==
  IF p \in DOMAIN m.nd THEN Assert(FALSE, <<"duplicate interior node", p>>)
  ELSE [m EXCEPT !.nd = (p :> NewNode(FALSE)) @@ @]

\* one plain (T, U or V) refinement of leaf element k
RefineOne(m, k, kind) ==
  LET p    == m.el[k]
      r    == p.rect
      ss   == Sides(r)
      c    == <<Mid(r[1], r[3]), Mid(r[2], r[4])>>
      locs == ChildLocs[kind]
      keys == [i \in DOMAIN locs |-> k \o "." \o locs[i]]
      split == CASE kind = "T" -> <<1, 2, 3, 4>> [] kind = "U" -> <<1, 2>> [] kind = "V" -> <<3, 4>>
      inner == CASE kind = "T" -> << <<c[1], r[2], c[1], c[2]>>, <<c[1], c[2], c[1], r[4]>>,
                                     <<r[1], c[2], c[1], c[2]>>, <<c[1], c[2], r[3], c[2]>> >>
                 [] kind = "U" -> << <<c[1], r[2], c[1], r[4]>> >>
                 [] kind = "V" -> << <<r[1], c[2], r[3], c[2]>> >>
      m0 == IF kind = "T" THEN AddInteriorNode(m, c) ELSE m
      m1 == FoldLeft(LAMBDA a, i : SplitIfNeeded(a, ss[i]), m0, split)
      m2 == FoldLeft(LAMBDA a, e : AddInteriorEdge(a, e), m1, inner)
      m3 == [m2 EXCEPT !.el[k].ch = keys, !.el[k].kind = kind]
      child(i) == [par |-> k, loc |-> locs[i], path |-> Append(p.path, locs[i]),
                   rect |-> SubRect(locs[i], r),
                   lu |-> p.lu + (IF kind \in {"T", "U"} THEN 1 ELSE 0),
                   lv |-> p.lv + (IF kind \in {"T", "V"} THEN 1 ELSE 0),
                   ni |-> p.ni, nj |-> p.nj, root |-> p.root, ch |-> <<>>, kind |-> "leaf"]
  IN FoldLeft(LAMBDA a, i : Connect(a, keys[i], child(i)), m3, [i \in DOMAIN locs |-> i])

\* a refinement token is T, U, V, or an extended one: U0, U1 (U, then V on child 0/1), V0, V1
HTokens == {"T", "U", "V", "U0", "U1", "V0", "V1"}
BadTokens == {"U2", "V2"}       \* extended refinement with an invalid child index

Refine(m, k, tok) ==
  CASE tok \in {"T", "U", "V"} -> RefineOne(m, k, tok)
    [] tok = "U0" -> RefineOne(RefineOne(m, k, "U"), k \o ".W", "V")
    [] tok = "U1" -> RefineOne(RefineOne(m, k, "U"), k \o ".E", "V")
    [] tok = "V0" -> RefineOne(RefineOne(m, k, "V"), k \o ".S", "U")
    [] tok = "V1" -> RefineOne(RefineOne(m, k, "V"), k \o ".N", "U")

\* combination of refinements of one element, as the implementation's += on a pair
PlusAssign(a, b) ==
  CASE a = "T" \/ b = "T" -> "T"
    [] a = b -> a
    [] a = "U" /\ b \in {"U0", "U1"} -> b
    [] b = "U" /\ a \in {"U0", "U1"} -> a
    [] a = "V" /\ b \in {"V0", "V1"} -> b
    [] b = "V" /\ a \in {"V0", "V1"} -> a
    [] OTHER -> "T"

(* --------------------------- edge activation ---------------------------- *)

Supported(m, e) == m.ed[e].s[1] # {} /\ m.ed[e].s[2] # {}

\* the most refined of a set of elements sharing a side of the same edge
Deepest(m, e, S) ==
  LET rank(k) == IF EdgeDir(e) = "U" THEN <<m.el[k].lv, m.el[k].lu>> ELSE <<m.el[k].lu, m.el[k].lv>>
      less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
  IN CHOOSE k \in S : \A j \in S \ {k} : less(rank(j), rank(k))

\* the implementation's recursion: an edge yields to its children when both are supported
RECURSIVE ActiveBelow(_, _)
ActiveBelow(m, e) ==
  IF ~Supported(m, e) THEN {}
  ELSE IF m.ed[e].ch = <<>> THEN {e}
  ELSE LET h == m.ed[e].ch IN
       IF Supported(m, h[1]) /\ Supported(m, h[2])
       THEN ActiveBelow(m, h[1]) \cup ActiveBelow(m, h[2])
       ELSE {e}

ActiveEdges(m) ==
  UNION {ActiveBelow(m, e) : e \in {x \in DOMAIN m.ed : m.ed[x].par = <<>> /\ ~m.ed[x].b}}

ActivePair(m, e) == <<Deepest(m, e, m.ed[e].s[1]), Deepest(m, e, m.ed[e].s[2])>>

(* -------------------------- degrees of freedom -------------------------- *)

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

BubbleDofs(m, k) ==
  LET e == m.el[k] IN
  { {<<k, "U", i, j>>} : i \in 0..(e.ni - 1), j \in 2..e.nj } \cup
  { {<<k, "V", i, j>>} : i \in 2..e.ni, j \in 0..(e.nj - 1) }

EdgeDofs(m, e) ==
  LET pr == ActivePair(m, e)
      a == m.el[pr[1]]
      b == m.el[pr[2]]
  IN IF EdgeDir(e) = "U"
     THEN { {<<pr[1], "U", i, 1>>, <<pr[2], "U", i, 0>>} : i \in 0..(MinOf(a.ni, b.ni) - 1) }
     ELSE { {<<pr[1], "V", 1, j>>, <<pr[2], "V", 0, j>>} : j \in 0..(MinOf(a.nj, b.nj) - 1) }

Leaves(m) == {k \in DOMAIN m.el : m.el[k].kind = "leaf"}

Dofs(m) == UNION ({BubbleDofs(m, k) : k \in Leaves(m)} \cup {EdgeDofs(m, e) : e \in ActiveEdges(m)})

(* --------------------- admissibility of h-requests ---------------------- *)

\* lim = [gt, half_lt, half_le] describes the minimum edge length M in scaled units:
\*   len > M      <=>  len > lim.gt           (gt      = floor(M))
\*   len / 2 < M  <=>  len < lim.half_lt      (half_lt = ceil(2 M))
\*   len / 2 <= M <=>  len <= lim.half_le     (half_le = floor(2 M))
Width(m, k) == m.el[k].rect[3] - m.el[k].rect[1]
Height(m, k) == m.el[k].rect[4] - m.el[k].rect[2]

Eligible(m, lim, k) ==
  /\ m.el[k].kind = "leaf"
  /\ Width(m, k) > lim.gt
  /\ Height(m, k) > lim.gt

CanSplit(lim, len) == ~(len < lim.half_lt)

Feasible(m, lim, k, tok) ==
  LET w == Width(m, k)  h == Height(m, k) IN
  CASE tok = "T" -> CanSplit(lim, w) /\ CanSplit(lim, h)
    [] tok = "U" -> CanSplit(lim, w)
    [] tok = "V" -> CanSplit(lim, h)
    \* the second stage needs an eligible child: every side strictly longer than the minimum
    [] tok \in {"U0", "U1"} -> CanSplit(lim, w) /\ CanSplit(lim, h) /\ ~(w <= lim.half_le)
    [] tok \in {"V0", "V1"} -> CanSplit(lim, w) /\ CanSplit(lim, h) /\ ~(h <= lim.half_le)

\* items: sequence of <<element key, token>>
ItemKeys(items) == {items[i][1] : i \in DOMAIN items}

CombinedTok(items, k) ==
  LET mine == SelectSeq(items, LAMBDA it : it[1] = k)
  IN FoldLeft(LAMBDA a, it : PlusAssign(a, it[2]), mine[1][2], mine)

HAdmissible(m, lim, items) ==
  /\ \A i \in DOMAIN items :
        /\ items[i][1] \in DOMAIN m.el
        /\ items[i][2] \in HTokens
        /\ Eligible(m, lim, items[i][1])
  /\ \A k \in ItemKeys(items) : Feasible(m, lim, k, CombinedTok(items, k))

HApply(m, items) ==
  LET tok == [k \in ItemKeys(items) |-> CombinedTok(items, k)]
      \* the implementation applies all first stages, then all second stages; see FemMeshProps!Confluence
      ks  == SetToSeq(ItemKeys(items))
  IN FoldLeft(LAMBDA a, k : Refine(a, k, tok[k]), m, ks)

HasDup(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]

(* ------------------------------ p-requests ------------------------------ *)

InRange(n) == 1 <= n /\ n <= MaxOrder
Clamp(d, n) == MaxOf(1 - n, MinOf(MaxOrder - n, d))
Window(m, k) == LET e == m.el[k] IN << <<1 - e.ni, MaxOrder - e.ni>>, <<1 - e.nj, MaxOrder - e.nj>> >>

\* items: sequence of <<key, di, dj>>
DeltaSum(items, k, c) ==
  FoldLeft(LAMBDA a, it : IF it[1] = k THEN a + it[c] ELSE a, 0, items)

PAdmissible(m, items) ==
  /\ \A i \in DOMAIN items : items[i][1] \in DOMAIN m.el
  /\ \A k \in ItemKeys(items) :
        InRange(m.el[k].ni + DeltaSum(items, k, 2)) /\ InRange(m.el[k].nj + DeltaSum(items, k, 3))

PApply(m, items) ==
  LET ks == ItemKeys(items) IN
  [m EXCEPT !.el = [k \in DOMAIN m.el |->
      IF k \in ks THEN [m.el[k] EXCEPT !.ni = @ + DeltaSum(items, k, 2), !.nj = @ + DeltaSum(items, k, 3)]
      ELSE m.el[k]]]

ClampItems(m, items) ==
  [i \in DOMAIN items |-> <<items[i][1], Clamp(items[i][2], m.el[items[i][1]].ni),
                                         Clamp(items[i][3], m.el[items[i][1]].nj)>>]

\* items: sequence of <<key, ni, nj>>
SAdmissible(m, items) ==
  /\ \A i \in DOMAIN items : items[i][1] \in DOMAIN m.el /\ InRange(items[i][2]) /\ InRange(items[i][3])
  /\ ~HasDup([i \in DOMAIN items |-> items[i][1]])

SApply(m, items) ==
  [m EXCEPT !.el = [k \in DOMAIN m.el |->
      IF \E i \in DOMAIN items : items[i][1] = k
      THEN LET it == items[CHOOSE i \in DOMAIN items : items[i][1] = k]
           IN [m.el[k] EXCEPT !.ni = it[2], !.nj = it[3]]
      ELSE m.el[k]]]

MaxOrders(m) ==
  << FoldSet(LAMBDA k, a : MaxOf(a, m.el[k].ni), 0, DOMAIN m.el),
     FoldSet(LAMBDA k, a : MaxOf(a, m.el[k].nj), 0, DOMAIN m.el) >>

(* ------------------------------- lineage -------------------------------- *)

RECURSIVE Ancestors(_, _)
Ancestors(m, k) == IF m.el[k].par = "" THEN <<>> ELSE <<m.el[k].par>> \o Ancestors(m, m.el[k].par)

RECURSIVE Descendants(_, _)
Descendants(m, k) ==
  UNION {{m.el[k].ch[i]} \cup Descendants(m, m.el[k].ch[i]) : i \in DOMAIN m.el[k].ch}

RECURSIVE EdgeDescendants(_, _)
EdgeDescendants(m, e) ==
  UNION {{m.ed[e].ch[i]} \cup EdgeDescendants(m, m.ed[e].ch[i]) : i \in DOMAIN m.ed[e].ch}
=============================================================================
