----------------------------- MODULE FemSparse -----------------------------
(* A symmetric sparse matrix: dimension and a function from stored positions *)
(* <<row, column>>, row <= column, to exact values.                          *)
EXTENDS BigRat, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NewMatrix(d) == [dim |-> d, e |-> <<>>]
Pos(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Inside2(m, i, j) == 0 <= i /\ i < m.dim /\ 0 <= j /\ j < m.dim
At(m, p) == IF p \in DOMAIN m.e THEN m.e[p] ELSE 0
Plus(f, p, v) == IF p \in DOMAIN f THEN [f EXCEPT ![p] = Add(f[p], v)] ELSE f @@ (p :> v)

InsertEntry(m, i, j, v) == [m EXCEPT !.e = Plus(m.e, Pos(i, j), v)]
InsertGroup(m, g) == [m EXCEPT !.e = FoldLeft(LAMBDA f, x : Plus(f, Pos(x[1], x[2]), x[3]), m.e, g)]
\* the sum of two matrices of the same dimension
Merged(m, o) == [m EXCEPT !.e = [p \in DOMAIN m.e \cup DOMAIN o.e |->
                   IF p \notin DOMAIN o.e THEN m.e[p] ELSE IF p \notin DOMAIN m.e THEN o.e[p] ELSE Add(m.e[p], o.e[p])]]
Emptied(m) == [m EXCEPT !.e = <<>>]

\* what is observable: the full symmetric matrix, the number of its stored entries, its upper triangle in row-major order
Entry(m, i, j) == At(m, Pos(i, j))
Stored(m) == DOMAIN m.e
Count(m) == 2 * Cardinality(Stored(m)) - Cardinality({p \in Stored(m) : p[1] = p[2]})
RowMajor(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Upper(m) == SetToSortSeq(Stored(m), RowMajor)
\* both triangles
RowCols(m) == TLCEval(LET add(f, r, c) == [f EXCEPT ![r] = @ \cup {c}] IN
  FoldSet(LAMBDA p, f : add(add(f, p[1], p[2]), p[2], p[1]), [r \in 0..(m.dim - 1) |-> {}], Stored(m)))

\* a reader of the PETSc binary format: w is the file as words of eight hexadecimal digits; the answer
\* is "" when the file holds exactly the full symmetric matrix m
PetscWords(m) == 4 + m.dim + 3 * Count(m)
PetscProblem(w, m) ==
  LET nz == Count(m)  rc == RowCols(m)
      cols(r) == SetToSortSeq(rc[r], <)
      \* all positions row by row, columns in order
      all == FoldLeft(LAMBDA acc, r : acc \o [k \in 1..Len(cols(r)) |-> <<r, cols(r)[k]>>], <<>>, [r \in 1..m.dim |-> r - 1])
      hex(k) == LET b == 4 + m.dim + nz + 2 * k - 1 IN w[b] \o w[b + 1]
  IN CASE Len(w) # PetscWords(m) \/ Len(w[Len(w)]) # 8 -> "file length"
       [] w[1] # "00127b50" -> "class id"
       [] Hex32(w[2]) # m.dim \/ Hex32(w[3]) # m.dim -> "rows"
       [] Hex32(w[4]) # nz -> "nonzeros"
       [] \E r \in 1..m.dim : Hex32(w[4 + r]) # Cardinality(rc[r - 1]) -> "row counts"
       [] \E k \in 1..nz : Hex32(w[4 + m.dim + k]) # all[k][2] -> "columns"
       [] \E k \in 1..nz : ~(F64Finite(hex(k)) /\ Same(F64(hex(k)), Entry(m, all[k][1], all[k][2]))) -> "values"
       [] OTHER -> ""
=============================================================================
