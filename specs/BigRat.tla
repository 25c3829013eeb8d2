------------------------------- MODULE BigRat -------------------------------
\* Exact rational arithmetic.  The definitions below say what the operators mean on pairs
\* <<numerator, denominator>>; TLC evaluates them through java/src/BigRat.java, which computes the
\* same values with unbounded integers (TLC's own integers are 32 bits wide).
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL P(a) == IF a \in Int THEN <<a, 1>> ELSE a

Rat(n, d)   == <<P(n)[1] * P(d)[2], P(n)[2] * P(d)[1]>>
Add(a, b)  == <<P(a)[1] * P(b)[2] + P(b)[1] * P(a)[2], P(a)[2] * P(b)[2]>>
Opp(a)      == <<-P(a)[1], P(a)[2]>>
Sub(a, b) == Add(a, Opp(b))
Mul(a, b) == <<P(a)[1] * P(b)[1], P(a)[2] * P(b)[2]>>
Quot(a, b)  == Rat(a, b)
Sign(a)     == LET s == P(a)[1] * P(a)[2] IN IF s > 0 THEN 1 ELSE IF s < 0 THEN -1 ELSE 0
Abs(a)      == IF Sign(a) < 0 THEN Opp(a) ELSE a
Less(a, b)  == Sign(Sub(b, a)) > 0
AtMost(a, b) == Sign(Sub(b, a)) >= 0
Same(a, b)  == Sign(Sub(b, a)) = 0
RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN <<1, 1>> ELSE IF k < 0 THEN Quot(1, Power(a, -k)) ELSE Mul(a, Power(a, k - 1))
Max2(a, b)  == IF Less(a, b) THEN b ELSE a
Min2(a, b)  == IF Less(a, b) THEN a ELSE b
RECURSIVE Total(_)
Total(s)    == IF s = <<>> THEN <<0, 1>> ELSE Add(Head(s), Total(Tail(s)))
Inner(s, t) == Total([i \in 1..Len(s) |-> Mul(s[i], t[i])])
\* polynomial with coefficients c (constant first) at x
RECURSIVE Horner(_, _)
Horner(c, x) == IF c = <<>> THEN <<0, 1>> ELSE Add(Head(c), Mul(x, Horner(Tail(c), x)))
Floor(a)    == <<(P(a)[1] * (IF P(a)[2] < 0 THEN -1 ELSE 1)) \div (P(a)[2] * (IF P(a)[2] < 0 THEN -1 ELSE 1)), 1>>
\* the same value as an ordinary integer (only for rationals that are integers)
AsInt(a)    == Floor(a)[1]
\* nearest multiple of 2^-k
RoundTo(a, k) == Quot(Floor(Add(Mul(a, Power(2, k)), Rat(1, 2))), Power(2, k))

\* The signs of the eigenvalues of a symmetric matrix (a sequence of rows), by Sylvester's law of inertia:
\* fraction-free symmetric elimination, in which the k-th pivot is the k-th leading principal minor.
\* <<negative, positive>>; <<-1, -1>> when some pivot is zero and the rest of its row is not.
RECURSIVE Eliminate(_, _, _, _, _)
Eliminate(M, k, prev, neg, pos) ==
  IF k > Len(M) THEN <<neg, pos>>
  ELSE IF Sign(M[k][k]) = 0
       THEN IF \A c \in k..Len(M) : Sign(M[k][c]) = 0 THEN Eliminate(M, k + 1, prev, neg, pos) ELSE <<-1, -1>>
       ELSE Eliminate([r \in 1..Len(M) |-> IF r <= k THEN M[r] ELSE [c \in 1..Len(M) |-> IF c <= k THEN 0
                         ELSE Quot(Sub(Mul(M[k][k], M[r][c]), Mul(M[r][k], M[k][c])), prev)]],
                      k + 1, M[k][k],
                      neg + (IF Sign(M[k][k]) # Sign(prev) THEN 1 ELSE 0), pos + (IF Sign(M[k][k]) = Sign(prev) THEN 1 ELSE 0))
Inertia(M) == Eliminate(M, 1, 1, 0, 0)

\* numbers read from a log: an IEEE double written as the 16 hexadecimal digits of its bits, and
\* decimal literals.  These have no useful definition over TLA+ strings; they exist only as overrides.
F64(s)         == CHOOSE x \in Int : TRUE
F64Finite(s)   == CHOOSE x \in BOOLEAN : TRUE
FromDecimal(s) == CHOOSE x \in Int : TRUE
IsDecimal(s)   == CHOOSE x \in BOOLEAN : TRUE
Decimal(a)     == "?"
\* the symmetric n x n matrix with the recorded entries <<row, column, double>> (positions from 0, row <= column, each once)
Symmetric(n, E) ==
  LET at(r, c) == {x \in 1..Len(E) : (E[x][1] = r - 1 /\ E[x][2] = c - 1) \/ (E[x][1] = c - 1 /\ E[x][2] = r - 1)} IN
  [r \in 1..n |-> [c \in 1..n |-> IF at(r, c) = {} THEN 0 ELSE F64(E[CHOOSE x \in at(r, c) : TRUE][3])]]
\* M + f N
Combine(M, f, N) == [r \in 1..Len(M) |-> [c \in 1..Len(M) |-> Add(M[r][c], Mul(f, N[r][c]))]]
\* the number written as eight hexadecimal digits, or -1 when it does not fit TLC's integers or is malformed
Hex32(s)       == CHOOSE x \in Int : TRUE
=============================================================================
