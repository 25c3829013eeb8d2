------------------------------- MODULE FemErr -------------------------------
(* Which causes a rejected request may name.                                 *)
(* A rejection is <<kind, detail>>; the detail says what the error points at: *)
(* positions of the request that carry the named id, the Edge named, the      *)
(* orders named. Several causes can hold at once: the library may report any  *)
(* one of them, but never one that does not hold.                             *)
EXTENDS FemMesh

\* all positions of the request that carry key k
At(keys, k) == SelectSeq([x \in DOMAIN keys |-> x], LAMBDA x : keys[x] = k)

\* sides whose halves would fall below the minimum length under token tok
ShortSides(m, lim, k, tok) ==
  LET ss == Sides(m.el[k].rect)
      need == CASE tok = "U" -> {1, 2} [] tok = "V" -> {3, 4} [] OTHER -> {1, 2, 3, 4}
  IN {ss[x] : x \in {y \in need : ~CanSplit(lim, EdgeLen(ss[y]))}}

HCauses(m, lim, items, nodup) ==
  LET keys == [x \in DOMAIN items |-> items[x][1]]
      here == {k \in ItemKeys(items) : k \in DOMAIN m.el}
      fine(k) == Eligible(m, lim, k) /\ (\A x \in DOMAIN items : items[x][1] = k => items[x][2] \in HTokens)
      tok(k) == CombinedTok(items, k)
  IN {<<"missing", At(keys, k), <<>>>> : k \in ItemKeys(items) \ here}
     \cup {<<"ineligible", At(keys, k), <<>>>> :
             k \in {j \in here : ~Eligible(m, lim, j) \/ (fine(j) /\ ~Feasible(m, lim, j, tok(j)))}}
     \cup {<<"short", <<>>, e>> : e \in UNION {IF fine(k) THEN ShortSides(m, lim, k, tok(k)) ELSE {} : k \in here}}
     \cup (IF \E x \in DOMAIN items : items[x][2] \notin HTokens THEN {<<"child", <<>>, <<>>>>} ELSE {})
     \cup (IF nodup /\ HasDup(keys) THEN {<<"twice", <<>>, <<>>>>} ELSE {})

PCauses(m, items, nodup) ==
  LET keys == [x \in DOMAIN items |-> items[x][1]]
      here == {k \in ItemKeys(items) : k \in DOMAIN m.el}
  IN {<<"missing", At(keys, k), <<>>>> : k \in ItemKeys(items) \ here}
     \cup {<<"window", At(keys, k), <<>>>> :
             k \in {j \in here : ~(InRange(m.el[j].ni + DeltaSum(items, j, 2)) /\ InRange(m.el[j].nj + DeltaSum(items, j, 3)))}}
     \cup (IF nodup /\ HasDup(keys) THEN {<<"twice", <<>>, <<>>>>} ELSE {})

SCauses(m, items) ==
  LET keys == [x \in DOMAIN items |-> items[x][1]]
      here == {k \in ItemKeys(items) : k \in DOMAIN m.el}
  IN {<<"missing", At(keys, k), <<>>>> : k \in ItemKeys(items) \ here}
     \cup {<<"orders", <<>>, <<items[x][2], items[x][3]>>>> :
             x \in {y \in DOMAIN items : ~(InRange(items[y][2]) /\ InRange(items[y][3]))}}
     \cup (IF HasDup(keys) THEN {<<"twice", <<>>, <<>>>>} ELSE {})
=============================================================================
