----------------------------- MODULE FemSpace -----------------------------
(* The space that the degrees of freedom of a mesh span, as a whole.         *)
EXTENDS FemBasis

SameLine(anc, a, b) == a = b \/ a \in anc[b] \/ b \in anc[a]
Lineage(t) == [k \in DOMAIN t.el |-> Range(Ancestors(t, k))]

\* exact scalar products of the degrees of freedom DS (a sequence of sets of functions on cells of t), which = "l2" or "cc"
Gram(t, DS, which) ==
  LET anc == TLCEval(Lineage(t))
      deg == FoldSet(LAMBDA f, a : MaxOf(a, MaxOf(f[3], f[4])), 1, UNION Range(DS))
      cells == {f[1] : f \in UNION Range(DS)}
      tb == TLCEval([y \in cells |-> [x \in (anc[y] \cup {y}) \cap cells |-> PairTables(t, x, y, deg, 1)]])
      tail(f) == <<f[2], f[3], f[4]>>
      one(f, g) ==
        IF ~SameLine(anc, f[1], g[1]) THEN 0
        ELSE LET big == IF f[1] \in anc[g[1]] \/ f[1] = g[1] THEN f ELSE g
                 small == IF f[1] \in anc[g[1]] \/ f[1] = g[1] THEN g ELSE f
                 b == tb[small[1]][big[1]]
             IN IF which = "l2" THEN DotInt(tail(big), tail(small), b) ELSE CurlInt(tail(big), tail(small), b)
      seqs == TLCEval([x \in DOMAIN DS |-> SetToSeq(DS[x])])
      entry(x, y) == FoldLeft(LAMBDA acc, f : FoldLeft(LAMBDA ac2, g : Add(ac2, one(f, g)), acc, seqs[y]), 0, seqs[x])
      up == TLCEval([x \in DOMAIN DS |-> [y \in x..Len(DS) |-> entry(x, y)]])
  IN [x \in DOMAIN DS |-> [y \in DOMAIN DS |-> IF x <= y THEN up[x][y] ELSE up[y][x]]]

Independent(t, DS) == Inertia(Gram(t, DS, "l2")) = <<0, Len(DS)>>

\* nothing is lost between two states: every degree of freedom of the older one is a combination of the newer one's.
\* (Their scalar products, newer ones first: positive pivots for those, and nothing left of the older ones.)
NothingGone(t, old) ==
  LET new == SetToSeq(Dofs(t))  gone == SetToSeq(Dofs(old) \ Dofs(t)) IN
  Inertia(Gram(t, new \o gone, "l2")) = <<0, Len(new)>>

\* when that is promised: orders only went up, and no cell has a smaller order than the cell it was split from
Upward(t) == \A k \in DOMAIN t.el : t.el[k].par # "" => t.el[k].ni >= t.el[t.el[k].par].ni /\ t.el[k].nj >= t.el[t.el[k].par].nj
Raised(old, t) == \A k \in DOMAIN old.el : t.el[k].ni >= old.el[k].ni /\ t.el[k].nj >= old.el[k].nj

(* Fields without curl.  They are the gradients of the potentials that vanish on the boundary (one per inner        *)
(* polynomial of a leaf, per polynomial of degree 2 and up on an activated interface, and per free node: one where  *)
(* activated interfaces end from all four sides), and the harmonic fields, which depend on the holes only.          *)
FreeNodes(t) ==
  LET act == ActiveEdges(t)
      ends(p, e) == CASE EdgeDir(e) = "U" /\ <<e[1], e[2]>> = p -> "E" [] EdgeDir(e) = "U" /\ <<e[3], e[4]>> = p -> "W"
                      [] EdgeDir(e) = "V" /\ <<e[1], e[2]>> = p -> "N" [] EdgeDir(e) = "V" /\ <<e[3], e[4]>> = p -> "S" [] OTHER -> ""
  IN {p \in DOMAIN t.nd : ~t.nd[p].b /\ {"N", "S", "E", "W"} \subseteq {ends(p, e) : e \in act}}

Roots(t) == {k \in DOMAIN t.el : t.el[k].par = ""}
Glued(t, a, b) == \E e \in Range(Sides(t.el[a].rect)) : e \in Range(Sides(t.el[b].rect))
RECURSIVE Grow(_, _)
Grow(t, S) == LET T == S \cup {k \in Roots(t) : \E a \in S : Glued(t, a, k)} IN IF T = S THEN S ELSE Grow(t, T)
Pieces(t) == {Grow(t, {k}) : k \in Roots(t)}
Harmonic(t) ==
  LET sides == UNION {Range(Sides(t.el[k].rect)) : k \in Roots(t)}
      inner == {e \in sides : Cardinality({k \in Roots(t) : e \in Range(Sides(t.el[k].rect))}) = 2}
      pts == UNION {Range(Corners(t.el[k].rect)) : k \in Roots(t)}
      within == {p \in pts : Cardinality({k \in Roots(t) : p \in Range(Corners(t.el[k].rect))}) = 4}
  IN Cardinality(Pieces(t)) - Cardinality(Roots(t)) + Cardinality(inner) - Cardinality(within)
CurlFree(t) ==
  LET along(e) == LET pr == ActivePair(t, e) IN
                  (IF EdgeDir(e) = "U" THEN MinOf(t.el[pr[1]].ni, t.el[pr[2]].ni) ELSE MinOf(t.el[pr[1]].nj, t.el[pr[2]].nj)) - 1
  IN FoldSet(LAMBDA k, a : a + (t.el[k].ni - 1) * (t.el[k].nj - 1), 0, Leaves(t))
     + FoldSet(LAMBDA e, a : a + along(e), 0, ActiveEdges(t)) + Cardinality(FreeNodes(t)) + Harmonic(t)

(* Resonances of a rectangular cavity a x b filled with one material: pi^2 (p^2/a^2 + q^2/b^2) / (eps mu) for p, q >= 0 *)
(* (not both 0).  A mode is resolved when every root cell spans at most half a wave of it; how near the discrete       *)
(* value is then depends on the smallest order of the cells.                                                           *)
PiSquared == Rat(98696044, 10000000)
Corner1(t) == << FoldSet(LAMBDA k, a : MinOf(a, t.el[k].rect[1]), t.el["r0"].rect[1], Roots(t)), FoldSet(LAMBDA k, a : MinOf(a, t.el[k].rect[2]), t.el["r0"].rect[2], Roots(t)) >>
Corner2(t) == << FoldSet(LAMBDA k, a : MaxOf(a, t.el[k].rect[3]), t.el["r0"].rect[3], Roots(t)), FoldSet(LAMBDA k, a : MaxOf(a, t.el[k].rect[4]), t.el["r0"].rect[4], Roots(t)) >>
Extent(t) == LET a == Corner1(t)  b == Corner2(t) IN <<b[1] - a[1], b[2] - a[2]>>
Rectangular(t) == LET x == Extent(t) IN
  Same(Mul(x[1], x[2]), Total([k \in 1..Cardinality(Roots(t)) |-> LET q == t.el[SetToSeq(Roots(t))[k]].rect IN Mul(q[3] - q[1], q[4] - q[2])]))
MinOrder(t) == FoldSet(LAMBDA k, a : MinOf(a, MinOf(t.el[k].ni, t.el[k].nj)), 99, DOMAIN t.el)   \* split cells still carry the functions on coarse interfaces
RelError(n) == CASE n <= 2 -> Rat(1, 4) [] n = 3 -> Rat(1, 50) [] n = 4 -> Rat(1, 1500) [] n = 5 -> Rat(1, 25000) [] OTHER -> Rat(1, 500000)

\* the modes that can matter for extents and widths of cells in real units; those that are resolved
ModeSet(ext, width) ==
  LET most(c) == 2 * (2 + AsInt(Floor(Quot(ext[c], width[c])))) IN ((0..most(1)) \X (0..most(2))) \ {<<0, 0>>}
Resolved(ext, width, w) == \A c \in 1..2 : AtMost(Mul(w[c], width[c]), ext[c])
Wave2(ext, w) == Add(Power(Quot(w[1], ext[1]), 2), Power(Quot(w[2], ext[2]), 2))
\* the number of discrete values below x lies between bounds, for x around every resolved resonance; G = <<A, B>>
Resonant(G, kernel, ext, width, order, material, Report(_, _)) ==
  LET modes == SetToSeq(ModeSet(ext, width))
      tau == RelError(order)
      unit == Quot(PiSquared, material)
      val == TLCEval([x \in DOMAIN modes |-> Mul(unit, Wave2(ext, modes[x]))])
      lo == TLCEval([x \in DOMAIN modes |-> Mul(val[x], Sub(1, IF Resolved(ext, width, modes[x]) THEN tau ELSE Rat(1, 4)))])
      hi == TLCEval([x \in DOMAIN modes |-> Mul(val[x], Add(1, tau))])
      good == {x \in DOMAIN modes : Resolved(ext, width, modes[x])}
      atLeast(z) == kernel + Cardinality({x \in good : Less(hi[x], z)})
      atMost(z) == kernel + Cardinality({x \in DOMAIN modes : AtMost(lo[x], z)})
      probe(x, z) == LET c == Inertia(Combine(G[1], Opp(z), G[2]))[1] IN
                     IF c = -1 \/ (atLeast(z) <= c /\ c <= atMost(z)) THEN TRUE
                     ELSE Report(modes[x], [below |-> Decimal(Quot(z, unit)), found |-> c - kernel, atLeast |-> atLeast(z) - kernel, atMost |-> atMost(z) - kernel])
      close == Rat(1, 1048576)
  IN \A x \in good :     \* just below where it may begin, just above where it must have come
       /\ probe(x, Mul(lo[x], Sub(1, close)))
       /\ probe(x, Mul(hi[x], Add(1, close)))
===========================================================================
