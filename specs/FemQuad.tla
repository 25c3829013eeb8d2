------------------------------ MODULE FemQuad ------------------------------
(* Gauss-Legendre rules and the one-dimensional shape functions, exactly.   *)
EXTENDS Integers, Sequences, FiniteSets, BigRat

\* ------------------------------------------------ Legendre polynomials
\* one step of the recurrence: (k+1) P_{k+1} = (2k+1) x P_k - k P_{k-1}
NextLegendre(k, x, pk, pk1) == Quot(Sub(Mul(Mul(2 * k + 1, x), pk), Mul(k, pk1)), k + 1)

(* The state machine that judges a rule: it walks the degrees 0, 1, 2, ... keeping P_k at every    *)
(* point; the moment of P_k under the rule must be 2 for k = 0 and 0 for 1 <= k <= 2n - 1.         *)
\* enough bits to make rounding of the walk irrelevant against the tolerance
Bits == 160

Moment(w, pk) == Inner(w, pk)
MomentOK(k, w, pk, tol) == AtMost(Abs(Sub(Moment(w, pk), IF k = 0 THEN 2 ELSE 0)), tol)

Ascending(x) == \A i \in 1..(Len(x) - 1) : Less(x[i], x[i + 1])
Inside(x) == \A i \in DOMAIN x : Less(-1, x[i]) /\ Less(x[i], 1)
SymmetricRule(x, w, tol) ==
  \A i \in DOMAIN x : LET j == Len(x) + 1 - i IN
     /\ AtMost(Abs(Add(x[i], x[j])), tol)
     /\ AtMost(Abs(Sub(w[i], w[j])), tol)
Positive(w) == \A i \in DOMAIN w : Less(0, w[i])

\* ------------------------------------------------ documented shape functions
NormFn(i, x) == Power(x, i)
NormD1(i, x) == IF i = 0 THEN Rat(0, 1) ELSE Mul(i, Power(x, i - 1))
NormD2(i, x) == IF i <= 1 THEN Rat(0, 1) ELSE Mul(i * (i - 1), Power(x, i - 2))
TangFn(i, x) == IF i = 0 THEN Sub(1, x) ELSE IF i = 1 THEN Add(1, x)
                ELSE IF i % 2 = 0 THEN Sub(Power(x, i), 1) ELSE Sub(Power(x, i), x)
TangD1(i, x) == IF i = 0 THEN Rat(-1, 1) ELSE IF i = 1 THEN Rat(1, 1)
                ELSE IF i % 2 = 0 THEN NormD1(i, x) ELSE Sub(NormD1(i, x), 1)
TangD2(i, x) == NormD2(i, x)

\* integral of x^a over [lo, hi]
MonoInt(a, lo, hi) == Quot(Sub(Power(hi, a + 1), Power(lo, a + 1)), a + 1)
=============================================================================
