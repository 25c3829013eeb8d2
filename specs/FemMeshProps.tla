--------------------------- MODULE FemMeshProps ---------------------------
(* Declarative statements about mesh values: what refinement must achieve,  *)
(* written without reference to how FemMesh builds the value.               *)
EXTENDS FemMesh

Area(r) == (r[3] - r[1]) * (r[4] - r[2])
Inside(a, b) == a[1] >= b[1] /\ a[2] >= b[2] /\ a[3] <= b[3] /\ a[4] <= b[4]
Overlap(a, b) == a[1] < b[3] /\ b[1] < a[3] /\ a[2] < b[4] /\ b[2] < a[4]

(* C02: children tile the parent *)
ChildrenTile(m) ==
  \A k \in DOMAIN m.el :
    LET e == m.el[k]
        R(i) == m.el[e.ch[i]].rect
    IN IF e.kind = "leaf" THEN e.ch = <<>>
       ELSE /\ Len(e.ch) = (IF e.kind = "T" THEN 4 ELSE 2)
            /\ \A i \in DOMAIN e.ch : /\ Inside(R(i), e.rect) /\ m.el[e.ch[i]].par = k
                                      /\ m.el[e.ch[i]].root = e.root
            /\ \A i, j \in DOMAIN e.ch : i < j => ~Overlap(R(i), R(j))
            /\ FoldLeft(LAMBDA a, i : a + Area(R(i)), 0, [i \in DOMAIN e.ch |-> i]) = Area(e.rect)
            /\ \A i \in DOMAIN e.ch : Area(R(i)) * Len(e.ch) = Area(e.rect)

\* levels count how often each direction was halved; leaves of a root tile it
LevelsMatchGeometry(m) ==
  \A k \in DOMAIN m.el :
    LET e == m.el[k]
        r == m.el[RootKey(e.root)].rect
    IN /\ (e.rect[3] - e.rect[1]) * 2^e.lu = r[3] - r[1]
       /\ (e.rect[4] - e.rect[2]) * 2^e.lv = r[4] - r[2]
       /\ Inside(e.rect, r)

LeavesTileRoots(m) ==
  /\ \A a, b \in Leaves(m) : a # b => ~Overlap(m.el[a].rect, m.el[b].rect)
  /\ FoldSet(LAMBDA k, s : s + Area(m.el[k].rect), 0, Leaves(m))
     = FoldSet(LAMBDA k, s : s + Area(m.el[k].rect), 0, {k \in DOMAIN m.el : m.el[k].par = ""})

(* C03: the topology is a function of the element tree alone *)
NodesAreCorners(m) ==
  /\ DOMAIN m.nd = UNION {Range(Corners(m.el[k].rect)) : k \in DOMAIN m.el}
  /\ \A p \in DOMAIN m.nd : \A c \in 1..4 :
        m.nd[p].q[c] = {k \in DOMAIN m.el : Corners(m.el[k].rect)[c] = p}

EdgesAreSides(m) ==
  /\ DOMAIN m.ed = UNION {Range(Sides(m.el[k].rect)) : k \in DOMAIN m.el}
  /\ \A e \in DOMAIN m.ed :
        /\ m.ed[e].s[1] = {k \in DOMAIN m.el : Sides(m.el[k].rect)[2] = e \/ Sides(m.el[k].rect)[4] = e}
        /\ m.ed[e].s[2] = {k \in DOMAIN m.el : Sides(m.el[k].rect)[1] = e \/ Sides(m.el[k].rect)[3] = e}

\* an edge is split exactly when its two halves are edges
SplitsAreHalves(m) ==
  \A e \in DOMAIN m.ed :
    LET h == Halves(e) IN
    /\ (m.ed[e].ch # <<>>) <=> (h[1] \in DOMAIN m.ed)
    /\ (m.ed[e].ch # <<>>) <=> (h[2] \in DOMAIN m.ed)
    /\ m.ed[e].ch # <<>> => /\ m.ed[e].ch = h /\ m.ed[h[1]].par = e /\ m.ed[h[2]].par = e
                            /\ m.ed[e].mid = EdgeMid(e) /\ m.ed[e].mid \in DOMAIN m.nd
    /\ m.ed[e].par # <<>> => e \in Range(m.ed[m.ed[e].par].ch)

RootRects(m) == {m.el[k].rect : k \in {j \in DOMAIN m.el : m.el[j].par = ""}}

\* boundary marks: an edge is marked iff root cells lie on one side of it only
BoundaryMarks(m) ==
  \A e \in DOMAIN m.ed :
    LET lowleft == IF EdgeDir(e) = "U" THEN <<e[1], e[2] - 1, e[3], e[2]>> ELSE <<e[1] - 1, e[2], e[1], e[4]>>
        upright == IF EdgeDir(e) = "U" THEN <<e[1], e[2], e[3], e[2] + 1>> ELSE <<e[1], e[2], e[1] + 1, e[4]>>
        has(s) == \E r \in RootRects(m) : Overlap(s, r)
    IN m.ed[e].b <=> ~(has(lowleft) /\ has(upright))

(* C06: activation, stated over the elementary pieces of the interfaces *)
RECURSIVE EdgeAncestorsOrSelf(_, _)
EdgeAncestorsOrSelf(m, e) == {e} \cup (IF m.ed[e].par = <<>> THEN {} ELSE EdgeAncestorsOrSelf(m, m.ed[e].par))

ActivationCovers(m) ==
  LET act == ActiveEdges(m) IN
  /\ \A f \in {x \in DOMAIN m.ed : m.ed[x].ch = <<>>} :
        LET over == EdgeAncestorsOrSelf(m, f) \cap act IN
        IF m.ed[f].b THEN over = {}
        ELSE /\ Cardinality(over) = 1
             \* it is the finest level at which both sides have cells
             /\ \A g \in EdgeAncestorsOrSelf(m, f) :
                   Supported(m, g) => \A a \in over : EdgeLen(a) <= EdgeLen(g)
  /\ \A e \in act :
        LET pr == ActivePair(m, e) IN
        \A s \in 1..2 : /\ pr[s] \in m.ed[e].s[s]
                        /\ \A k \in m.ed[e].s[s] : Inside(m.el[pr[s]].rect, m.el[k].rect)

\* siblings gain support together (the implementation panics otherwise)
SiblingSupport(m) ==
  \A e \in DOMAIN m.ed : m.ed[e].ch # <<>> =>
     \A s \in 1..2 : (m.ed[m.ed[e].ch[1]].s[s] = {}) <=> (m.ed[m.ed[e].ch[2]].s[s] = {})

(* C10 / C11: the degrees of freedom are consistent with the interfaces *)
\* tangential trace of a function <<k, dir, i, j>> on side c of its cell is non-zero iff
TraceOn(f) == CASE f[2] = "U" /\ f[4] = 0 -> {1} [] f[2] = "U" /\ f[4] = 1 -> {2}
                [] f[2] = "V" /\ f[3] = 0 -> {3} [] f[2] = "V" /\ f[3] = 1 -> {4}
                [] OTHER -> {}

DofsConform(m) ==
  LET ds == Dofs(m) IN
  /\ \A d \in ds : Cardinality(d) \in {1, 2}
  \* a single function has no tangential trace at all; a pair shares one edge with equal traces
  /\ \A d \in ds : Cardinality(d) = 1 => \A f \in d : TraceOn(f) = {}
  /\ \A d \in ds : Cardinality(d) = 2 =>
        \E f, g \in d : /\ f # g /\ f[2] = g[2]
                        /\ LET se == Sides(m.el[f[1]].rect)[CHOOSE c \in TraceOn(f) : TRUE]
                               sg == Sides(m.el[g[1]].rect)[CHOOSE c \in TraceOn(g) : TRUE]
                           IN se = sg /\ ~m.ed[se].b
                        /\ (IF f[2] = "U" THEN f[3] = g[3] ELSE f[4] = g[4])
  \* no function is used twice
  /\ \A d1, d2 \in ds : d1 # d2 => d1 \cap d2 = {}

(* C08 *)
OrdersInRange(m) == \A k \in DOMAIN m.el : InRange(m.el[k].ni) /\ InRange(m.el[k].nj)

(* C07: the order in which two different cells are refined does not matter *)
Confluence(m, toks) ==
  \A a, b \in Leaves(m) : a # b =>
    \A s \in toks : \A t \in toks : Refine(Refine(m, a, s), b, t) = Refine(Refine(m, b, t), a, s)

(* C05: + is commutative, associative, idempotent and an upper bound *)
LeafGeometry(tok) ==
  LET m == Refine(BaseMesh(<< <<0, 0, 4, 4>> >>, 1, 1), "r0", tok)
  IN {m.el[k].rect : k \in Leaves(m)}
FinerOrEqual(A, B) == \A r \in A : \E s \in B : Inside(r, s)     \* A refines B
CombinationLaws ==
  \A a, b \in HTokens :
    /\ PlusAssign(a, b) = PlusAssign(b, a)
    /\ PlusAssign(a, a) = a
    /\ FinerOrEqual(LeafGeometry(PlusAssign(a, b)), LeafGeometry(a))
    /\ \A c \in HTokens : PlusAssign(PlusAssign(a, b), c) = PlusAssign(a, PlusAssign(b, c))
    \* least among the tokens
    /\ \A c \in HTokens : (PlusAssign(a, c) = c /\ PlusAssign(b, c) = c) => PlusAssign(PlusAssign(a, b), c) = c

MeshInvariant(m) ==
  /\ ChildrenTile(m) /\ LevelsMatchGeometry(m) /\ LeavesTileRoots(m)
  /\ NodesAreCorners(m) /\ EdgesAreSides(m) /\ SplitsAreHalves(m) /\ BoundaryMarks(m)
  /\ SiblingSupport(m) /\ ActivationCovers(m) /\ DofsConform(m) /\ OrdersInRange(m)
=============================================================================
