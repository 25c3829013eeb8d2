---------------------------- MODULE FemSparseMC ----------------------------
(* All short histories of two matrices and a clone; each value ever inserted *)
(* is remembered with its current owners, and the declarative content of a   *)
(* matrix is the sum of what it owns.                                        *)
EXTENDS FemSparse, IOUtils
Ops == atoi(IOEnv.MC_OPS)
D == 2
Names == {"a", "b"}
Vals == {1, -1, 2}
VARIABLES ms, owned, left
vars == <<ms, owned, left>>

Init == ms = [x \in Names |-> NewMatrix(D)] /\ owned = [x \in Names |-> <<>>] /\ left = Ops
Ins(x) == \E i, j \in 0..(D - 1), v \in Vals :
            /\ ms' = [ms EXCEPT ![x] = InsertEntry(@, i, j, v)] /\ owned' = [owned EXCEPT ![x] = Append(@, <<i, j, v>>)]
Group(x) == \E i \in 0..(D - 1), v, w \in Vals :
            LET g == << <<i, 0, v>>, <<0, i, w>> >> IN
            /\ ms' = [ms EXCEPT ![x] = InsertGroup(@, g)] /\ owned' = [owned EXCEPT ![x] = @ \o g]
Consume(x, y) == /\ ms' = [ms EXCEPT ![x] = Merged(@, ms[y]), ![y] = Emptied(@)]
                 /\ owned' = [owned EXCEPT ![x] = @ \o owned[y], ![y] = <<>>]
Copy(x, y) == ms' = [ms EXCEPT ![x] = ms[y]] /\ owned' = [owned EXCEPT ![x] = owned[y]]
Next == left > 0 /\ left' = left - 1 /\
        \E x \in Names : \/ Ins(x) \/ Group(x)
                         \/ \E y \in Names \ {x} : Consume(x, y) \/ Copy(x, y)
Spec == Init /\ [][Next]_vars

Declared(x, i, j) == Total([k \in 1..Len(owned[x]) |->
   LET e == owned[x][k] IN IF (e[1] = i /\ e[2] = j) \/ (e[1] = j /\ e[2] = i) THEN e[3] ELSE 0])
AccumulatesSymmetrically == \A x \in Names : \A i, j \in 0..(D - 1) : Same(Entry(ms[x], i, j), Declared(x, i, j))
CountsBothTriangles == \A x \in Names : Count(ms[x]) =
   Cardinality({<<i, j>> \in (0..(D - 1)) \X (0..(D - 1)) : \E k \in DOMAIN owned[x] : LET e == owned[x][k] IN {e[1], e[2]} = {i, j}})
UpperOnce == \A x \in Names : LET u == Upper(ms[x]) IN
   /\ \A k \in 1..(Len(u) - 1) : RowMajor(u[k], u[k + 1])
   /\ \A k \in DOMAIN u : u[k][1] <= u[k][2]
RowsAgree == \A x \in Names : LET rc == RowCols(ms[x]) IN
   /\ \A r \in DOMAIN rc : \A c \in rc[r] : Pos(r, c) \in Stored(ms[x])
   /\ FoldSet(LAMBDA r, n : n + Cardinality(rc[r]), 0, DOMAIN rc) = Count(ms[x])
=============================================================================
