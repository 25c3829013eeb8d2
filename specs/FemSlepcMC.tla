---------------------------- MODULE FemSlepcMC ----------------------------
(* Several calls of the external solver share one directory.  Every step of *)
(* a call may fail; all interleavings are explored.  A file is named by its *)
(* prefix and its kind, and holds the number of the call that wrote it.     *)
(* With MC_UNIQUE = "no" calls may draw the same prefix (as calls starting  *)
(* in the same instant once did): then Isolated and FaithfulPair fail.      *)
EXTENDS FemSlepc, IOUtils, FiniteSetsExt
N == atoi(IOEnv.MC_CALLS)
UNIQUE == IOEnv.MC_UNIQUE = "yes"
Calls == 1..N
Decoys == {<<0, "other.dat">>, <<0, "p_old_a.dat">>}

VARIABLES pc, pre,       \* of every call: where it is, its prefix
          dir,           \* <<prefix, kind>> -> the call that wrote it (decoys: 0)
          seen,          \* call -> the matrices its solver read
          how,           \* call -> what happened (as in Answers)
          sol,           \* call -> whose solution was read, 0 unreadable
          res            \* call -> answer, "" not yet
vars == <<pc, pre, dir, seen, how, sol, res>>
Fine == [named |-> TRUE, written |-> TRUE, launched |-> TRUE, signal |-> 0, exit |-> 0, clean |-> TRUE, readable |-> TRUE]
Init == /\ pc = [c \in Calls |-> "start"] /\ pre = [c \in Calls |-> 0] /\ dir = [f \in Decoys |-> 0] /\ seen = [c \in Calls |-> <<>>]
        /\ how = [c \in Calls |-> Fine] /\ sol = [c \in Calls |-> 0] /\ res = [c \in Calls |-> ""]
Put(d, f, c) == [x \in DOMAIN d \cup {f} |-> IF x = f THEN c ELSE d[x]]
Read(c, kind) == IF <<pre[c], kind>> \in DOMAIN dir THEN dir[<<pre[c], kind>>] ELSE 0
Go(c, p) == pc' = [pc EXCEPT ![c] = p]
Same3 == UNCHANGED <<seen, sol, res>>

Start(c) == /\ pc[c] = "start" /\ UNCHANGED <<dir, seen, sol>>
            /\ \/ /\ \E p \in (IF UNIQUE THEN {c} ELSE {1, 2}) : pre' = [pre EXCEPT ![c] = p]
                  /\ Go(c, "a") /\ UNCHANGED <<how, res>>
               \/ how' = [how EXCEPT ![c].named = FALSE] /\ res' = [res EXCEPT ![c] = "SolverNotFound"] /\ Go(c, "end") /\ UNCHANGED pre
\* a failed write may leave a partial file
Write(c, here, next) == /\ pc[c] = here /\ UNCHANGED pre /\ Same3
                        /\ dir' = Put(dir, <<pre[c], here>>, c)
                        /\ \/ Go(c, next) /\ UNCHANGED how
                           \/ how' = [how EXCEPT ![c].written = FALSE] /\ Go(c, "clean")
WriteA(c) == Write(c, "a", "b")
WriteB(c) == Write(c, "b", "launch")
Launch(c) == /\ pc[c] = "launch" /\ UNCHANGED <<pre, dir>> /\ Same3
             /\ \/ Go(c, "solver") /\ UNCHANGED how
                \/ how' = [how EXCEPT ![c].launched = FALSE] /\ Go(c, "clean")
Solver(c) == /\ pc[c] = "solver" /\ seen' = [seen EXCEPT ![c] = <<Read(c, "a"), Read(c, "b")>>] /\ Go(c, "solution") /\ UNCHANGED <<pre, dir, how, sol, res>>
\* it writes none, one or both of its files and something else, and ends in any way
Solution(c) == /\ pc[c] = "solution" /\ UNCHANGED pre /\ Same3
               /\ \E ks \in SUBSET {"evec", "eval", "info"} : \E ex \in {0, 3, 9} : \E sg \in {0, 9} :
                    /\ dir' = [f \in DOMAIN dir \cup {<<pre[c], k>> : k \in ks} |-> IF f[1] = pre[c] /\ f[2] \in ks THEN c ELSE dir[f]]
                    /\ how' = [how EXCEPT ![c].exit = ex, ![c].signal = sg, ![c].readable = {"evec", "eval"} \subseteq ks]
               /\ Go(c, "ended")
Ended(c) == /\ pc[c] = "ended" /\ UNCHANGED <<pre, dir, seen, how, res>>
            /\ sol' = [sol EXCEPT ![c] = IF how[c].exit = 0 /\ how[c].signal = 0 /\ Read(c, "evec") # 0 THEN Read(c, "eval") ELSE 0]
            /\ Go(c, "clean")
Clean(c) == /\ pc[c] = "clean" /\ dir' = [f \in {x \in DOMAIN dir : x[1] # pre[c]} |-> dir[f]]
            /\ res' = [res EXCEPT ![c] = CHOOSE a \in Answers([how[c] EXCEPT !.readable = sol[c] # 0]) : TRUE]
            /\ Go(c, "end") /\ UNCHANGED <<pre, seen, how, sol>>
Next == \E c \in Calls : Start(c) \/ WriteA(c) \/ WriteB(c) \/ Launch(c) \/ Solver(c) \/ Solution(c) \/ Ended(c) \/ Clean(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the solver of a call sees that call's matrices
Isolated == \A c \in Calls : seen[c] # <<>> => seen[c] = <<c, c>>
\* success returns the solution this call's solver wrote, and every failure its own error
FaithfulPair == \A c \in Calls : (res[c] = "ok" => sol[c] = c) /\ (res[c] # "" => res[c] \in Answers(how[c]))
\* an ended call has left nothing behind, and nobody's other files are touched
CleanedUp == \A c \in Calls : pc[c] = "end" => (\A f \in DOMAIN dir : dir[f] # c)
DecoysStay == \A f \in Decoys : f \in DOMAIN dir /\ dir[f] = 0
OthersStay == \A c \in Calls : pc[c] \in {"launch", "solver"} => {<<pre[c], "a">>, <<pre[c], "b">>} \subseteq DOMAIN dir
AllEnd == <>(\A c \in Calls : pc[c] = "end")
=============================================================================
