------------------------------ MODULE FemGeoMC ------------------------------
(* Every pair of small matrices and every triple of nearby coordinates:     *)
(* the algebra and the order the value types are specified by are coherent. *)
EXTENDS FemGeo, IOUtils
R == IF IOEnv.MC_DEEP = "yes" THEN -2..2 ELSE -1..1
VARIABLES m, n, done
E4(x) == <<<<x[1], x[2]>>, <<x[3], x[4]>>>>
Mats == {E4(x) : x \in [1..4 -> R]}
Coords == [1..3 -> {-1, 0, 1}]
Id == <<<<1, 0>>, <<0, 1>>>>
Init == m \in Mats /\ n = Id /\ done = FALSE
Next == ~done /\ done' = TRUE /\ m' = m /\ n' \in Mats
Spec == Init /\ [][Next]_<<m, n, done>>

Algebra ==
  /\ MSame(Product(m, Id), m) /\ MSame(Product(Id, m), m)
  /\ Same(Det(Product(m, n)), Mul(Det(m), Det(n)))
  /\ MSame(Transpose(Product(m, n)), Product(Transpose(n), Transpose(m)))
  /\ MSame(Transpose(Transpose(m)), m)
  /\ \A v \in {<<1, 0>>, <<0, 1>>, <<1, -2>>} : VSame(Apply(Product(m, n), v), Apply(m, Apply(n, v)))
  /\ Sign(Det(m)) # 0 => /\ MSame(Product(m, Inverse(m)), Id) /\ MSame(Product(Inverse(m), m), Id)
                         /\ MSame(Inverse(Inverse(m)), m)
\* a total order that only looks at whole grains and follows the values
ASSUME \A a, b \in Coords :
  /\ Cmp(a, b) = "lt" <=> Cmp(b, a) = "gt"
  /\ Cmp(a, b) = "eq" <=> Cmp(b, a) = "eq"
  /\ Cmp(a, b) = "lt" => Less(Value(a), Value(b))
  /\ Cmp(a, b) = "eq" => Less(Away(a, b), Rat(1, Power(10, 12)))
  /\ \A c \in Coords : Cmp(a, b) = "lt" /\ Cmp(b, c) # "gt" => Cmp(a, c) = "lt"
=============================================================================
