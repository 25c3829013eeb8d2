------------------------------ MODULE FemAlgMC ------------------------------
EXTENDS FemAlg
VARIABLES acc, left
\* every way of adding up to four tokens one after the other, against the fold of all permutations
Init == acc \in {<<t>> : t \in HTokens} /\ left = 3
Next == left > 0 /\ left' = left - 1 /\ \E t \in HTokens : acc' = Append(acc, t)
Spec == Init /\ [][Next]_<<acc, left>>
Inv == \A x, y \in DOMAIN acc : FoldTok(acc) = FoldTok([acc EXCEPT ![x] = acc[y], ![y] = acc[x]])
Absorbs == \A x \in DOMAIN acc : PlusAssign(FoldTok(acc), acc[x]) = FoldTok(acc)
ASSUME AlgLaws
=============================================================================
