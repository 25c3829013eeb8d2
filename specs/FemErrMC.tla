------------------------------ MODULE FemErrMC ------------------------------
(* On every reachable mesh of a bounded exploration: a request of at most two *)
(* items is rejected exactly if there is a cause an error can name, and the   *)
(* name tells the user which item to repair.                                  *)
EXTENDS FemMeshMC, FemErr

\* 16 units wide roots, minimum length such that two bisections are possible in some directions only
Lims == {[gt |-> 7, half_lt |-> 16, half_le |-> 16], [gt |-> 8, half_lt |-> 17, half_le |-> 17],
         [gt |-> 4, half_lt |-> 8, half_le |-> 8], [gt |-> 0, half_lt |-> 1, half_le |-> 0]}
Keys == DOMAIN m.el \cup {"nowhere"}
HReqs == {<<>>} \cup {<< <<k, t>> >> : k \in Keys, t \in HTokens \cup BadTokens}
PairToks == {"T", "U", "V0", "U2"}
HReqs2 == {<< <<k, t>>, <<j, u>> >> : k, j \in Keys, t, u \in PairToks}
DReqs == {<<>>} \cup {<< <<k, d, e>> >> : k \in Keys, d, e \in {-3, 0, 19, 20}}
         \cup {<< <<k, d, 1>>, <<j, e, -1>> >> : k, j \in Keys, d, e \in {-1, 1, 10, 19}}
SReqs == {<<>>} \cup {<< <<k, a, b>> >> : k \in Keys, a, b \in {0, 1, 20, 21}}
         \cup {<< <<k, a, 3>>, <<j, 4, b>> >> : k, j \in Keys, a, b \in {0, 2, 21}}

\* a named item really is unusable: alone it is rejected as well, unless the cause is the combination of its own items
Only(items, at) == [x \in DOMAIN at |-> items[at[x]]]

HInv == \A lim \in Lims : \A r \in HReqs \cup HReqs2 :
          LET c == HCauses(m, lim, r, FALSE) IN
          /\ HAdmissible(m, lim, r) <=> c = {}
          /\ \A w \in c : w[2] # <<>> => ~HAdmissible(m, lim, Only(r, w[2]))
PInv == \A r \in DReqs :
          LET c == PCauses(m, r, FALSE) IN
          /\ PAdmissible(m, r) <=> c = {}
          /\ \A w \in c : w[2] # <<>> => ~PAdmissible(m, Only(r, w[2]))
SInv == \A r \in SReqs :
          LET c == SCauses(m, r) IN
          /\ SAdmissible(m, r) <=> c = {}
          /\ \A w \in c : w[2] # <<>> => ~SAdmissible(m, Only(r, w[2]))
=============================================================================
