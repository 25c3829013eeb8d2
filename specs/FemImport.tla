----------------------------- MODULE FemImport -----------------------------
(* What a mesh file is.  A document is a JSON tree of uniform records        *)
(*   [t |-> "n"|"s"|"b"|"z"|"a"|"o", v |-> eighths, x |-> literal text,      *)
(*    k |-> keys (t = "o"), a |-> members (t = "a" or "o")]                  *)
(* Numbers are v/8; a number whose text is given by x is not an integer.     *)
EXTENDS FemMesh

Num(v)   == [t |-> "n", v |-> v, x |-> "", k |-> <<>>, a |-> <<>>]
Lit(t, x) == [t |-> t, v |-> 1, x |-> x, k |-> <<>>, a |-> <<>>]
Arr(a)   == [t |-> "a", v |-> 0, x |-> "", k |-> <<>>, a |-> a]
Obj(k, a) == [t |-> "o", v |-> 0, x |-> "", k |-> k, a |-> a]
Null     == Lit("z", "null")

Get(o, key) ==
  IF o.t = "o" /\ \E j \in DOMAIN o.k : o.k[j] = key
  THEN o.a[CHOOSE j \in DOMAIN o.k : o.k[j] = key] ELSE Null

IsNum(j) == j.t = "n"
NumArr(j, n) == j.t = "a" /\ Len(j.a) = n /\ \A y \in DOMAIN j.a : IsNum(j.a[y])
IsIndex(j, n) == IsNum(j) /\ j.x = "" /\ j.v >= 0 /\ j.v % 8 = 0 /\ j.v \div 8 < n

Els(doc) == Get(doc, "Elements").a
Nds(doc) == Get(doc, "Nodes").a
Ids(e) == [y \in 1..4 |-> Get(e, "node_ids").a[y].v \div 8]
Location(p) == <<p.a[1].v, p.a[2].v>>

GoodNodes(doc) ==
  /\ Get(doc, "Nodes").t = "a"
  /\ \A y \in DOMAIN Nds(doc) : NumArr(Nds(doc)[y], 2)
  /\ \A y, z \in DOMAIN Nds(doc) : y # z =>
        \/ Location(Nds(doc)[y]) # Location(Nds(doc)[z])
        \/ \E c \in 1..2 : Nds(doc)[y].a[c].x # Nds(doc)[z].a[c].x

GoodElement(e, n) ==
  /\ NumArr(Get(e, "node_ids"), 4)
  /\ \A y \in 1..4 : IsIndex(Get(e, "node_ids").a[y], n)
  /\ \A y, z \in 1..4 : y # z => Ids(e)[y] # Ids(e)[z]
  /\ NumArr(Get(e, "materials"), 4)

\* the four sides of an element as (node, node, which side of the edge the element is on)
IdSides(d) == { <<d[1], d[2], 2>>, <<d[3], d[4], 1>>, <<d[1], d[3], 2>>, <<d[2], d[4], 1>> }

WellFormed(doc) ==
  /\ doc.t = "o"
  /\ GoodNodes(doc)
  /\ Get(doc, "Elements").t = "a"
  /\ LET E == Els(doc)  n == Len(Nds(doc)) IN
     /\ \A y \in DOMAIN E : GoodElement(E[y], n)
     /\ \A p \in 0..(n - 1) : Cardinality({y \in DOMAIN E : p \in Range(Ids(E[y]))}) <= 4
     /\ \A y, z \in DOMAIN E : y # z => IdSides(Ids(E[y])) \cap IdSides(Ids(E[z])) = {}

\* corners in the documented order SW, SE, NW, NE of a rectangle
RectOf(doc, e) ==
  LET c == [y \in 1..4 |-> Location(Nds(doc)[Ids(e)[y] + 1])] IN <<c[1][1], c[1][2], c[4][1], c[4][2]>>
IsRect(doc, e) ==
  LET c == [y \in 1..4 |-> Location(Nds(doc)[Ids(e)[y] + 1])]
      r == RectOf(doc, e)
  IN /\ r[1] < r[3] /\ r[2] < r[4]
     /\ c = Corners(r)
     /\ \A y \in 1..4 : \A b \in 1..2 : Nds(doc)[Ids(e)[y] + 1].a[b].x = ""

\* "reject", "mesh" (the mesh is determined), or "open" (the format says nothing about it)
Meaning(doc) ==
  IF ~WellFormed(doc) THEN "reject"
  ELSE IF /\ \A y \in DOMAIN Els(doc) : IsRect(doc, Els(doc)[y])
          /\ \A y \in DOMAIN Els(doc) : \A b \in 1..4 : Get(Els(doc)[y], "materials").a[b].x = ""
          /\ \A y \in DOMAIN Nds(doc) : \A b \in 1..2 : Nds(doc)[y].a[b].x = ""
       THEN "mesh" ELSE "open"

CellsOf(doc) == [y \in DOMAIN Els(doc) |-> RectOf(doc, Els(doc)[y])]
MatsOf(doc) == [y \in DOMAIN Els(doc) |-> [b \in 1..4 |-> Get(Els(doc)[y], "materials").a[b].v]]
PointsOf(doc) == [y \in DOMAIN Nds(doc) |-> Location(Nds(doc)[y])]
=============================================================================
