------------------------------ MODULE FemCache ------------------------------
(* The basis-function cache shared by the clones of a sampler: threads ask   *)
(* for keys; a mutex guards a map from keys to built functions; a constructor*)
(* may panic, which poisons the mutex, and from then on every request builds *)
(* for itself.  HOLD: the lock is held from lookup to insertion (otherwise   *)
(* it is released while building, which is allowed too).  Every interleaving *)
(* is explored, and the rules the trace specification FemCacheTrace applies  *)
(* to recorded histories are invariants here, for both variants.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, IOUtils

T == 1..atoi(IOEnv.MC_THREADS)
K == 1..atoi(IOEnv.MC_KEYS)
R == atoi(IOEnv.MC_REQS)                        \* requests each thread makes
HOLD == IOEnv.MC_HOLD = "yes"
BOOM == IF IOEnv.MC_BOOM = "yes" THEN {1} ELSE {}   \* keys whose first construction panics

VARIABLES pc, key, made,      \* of every thread: where it is, what it asks for, what it has built (0 nothing)
          left,               \* requests still to be made
          lock, poisoned,     \* the mutex: holder (0 none)
          map,                \* key -> serial number of the function in the map, 0 none
          serial, keyOf,      \* constructions so far; serial -> key
          boomed,             \* keys whose construction has panicked
          \* history: what the recorded log would show
          done,               \* keys for which some request has returned
          fresh,              \* thread -> no equal request had returned when its request began
          got,                \* thread -> <<what the last request returned, was the sampler healthy throughout>>
          rebuilt             \* a forbidden construction has happened
vars == <<pc, key, made, left, lock, poisoned, map, serial, keyOf, boomed, done, fresh, got, rebuilt>>

Init == /\ pc = [t \in T |-> "idle"] /\ key = [t \in T |-> 0] /\ made = [t \in T |-> 0] /\ left = [t \in T |-> R]
        /\ lock = 0 /\ poisoned = FALSE /\ map = [k \in K |-> 0] /\ serial = 0 /\ keyOf = <<>> /\ boomed = {}
        /\ done = {} /\ fresh = [t \in T |-> TRUE] /\ got = [t \in T |-> 0] /\ rebuilt = FALSE

Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0
          /\ \E k \in K : key' = [key EXCEPT ![t] = k] /\ fresh' = [fresh EXCEPT ![t] = k \notin done]
          /\ pc' = [pc EXCEPT ![t] = "lock"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ made' = [made EXCEPT ![t] = 0] /\ got' = [got EXCEPT ![t] = 0]
          /\ UNCHANGED <<lock, poisoned, map, serial, keyOf, boomed, done, rebuilt>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0
           /\ IF poisoned THEN pc' = [pc EXCEPT ![t] = "alone"] /\ UNCHANGED lock
              ELSE pc' = [pc EXCEPT ![t] = "look"] /\ lock' = t
           /\ UNCHANGED <<key, made, left, poisoned, map, serial, keyOf, boomed, done, fresh, got, rebuilt>>
Look(t) == /\ pc[t] = "look"
           /\ IF map[key[t]] # 0
              THEN made' = [made EXCEPT ![t] = map[key[t]]] /\ pc' = [pc EXCEPT ![t] = "return"] /\ lock' = 0
              ELSE pc' = [pc EXCEPT ![t] = "build"] /\ lock' = (IF HOLD THEN t ELSE 0) /\ UNCHANGED made
           /\ UNCHANGED <<key, left, poisoned, map, serial, keyOf, boomed, done, fresh, got, rebuilt>>
Healthy == boomed = {}
\* a constructor runs; for some keys it panics the first time
Construct(t, next, holding) ==
  /\ serial' = serial + 1 /\ keyOf' = Append(keyOf, key[t])
  /\ rebuilt' = (rebuilt \/ (Healthy /\ ~fresh[t]))
  /\ IF key[t] \in BOOM /\ key[t] \notin boomed
     THEN /\ boomed' = boomed \cup {key[t]} /\ pc' = [pc EXCEPT ![t] = "idle"] /\ got' = [got EXCEPT ![t] = -1]
          /\ poisoned' = (poisoned \/ holding) /\ lock' = (IF holding THEN 0 ELSE lock) /\ UNCHANGED made
     ELSE made' = [made EXCEPT ![t] = serial + 1] /\ pc' = [pc EXCEPT ![t] = next] /\ UNCHANGED <<boomed, poisoned, lock, got>>
  /\ UNCHANGED <<key, left, map, done, fresh>>
Build(t) == pc[t] = "build" /\ Construct(t, "insert", HOLD)
Alone(t) == pc[t] = "alone" /\ Construct(t, "return", FALSE)
Insert(t) == /\ pc[t] = "insert" /\ (HOLD \/ lock = 0)
             \* without HOLD the first function inserted stays
             /\ IF map[key[t]] = 0 THEN map' = [map EXCEPT ![key[t]] = made[t]] /\ UNCHANGED made
                ELSE made' = [made EXCEPT ![t] = map[key[t]]] /\ UNCHANGED map
             /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "return"]
             /\ UNCHANGED <<key, left, poisoned, serial, keyOf, boomed, done, fresh, got, rebuilt>>
Return(t) == /\ pc[t] = "return" /\ got' = [got EXCEPT ![t] = made[t]] /\ done' = done \cup {key[t]} /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<key, made, left, lock, poisoned, map, serial, keyOf, boomed, fresh, rebuilt>>
Next == \E t \in T : Ask(t) \/ Lock(t) \/ Look(t) \/ Build(t) \/ Alone(t) \/ Insert(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what a request returns is a function built for its key
RightFunction == \A t \in T : got[t] > 0 => keyOf[got[t]] = key[t]
\* on a healthy sampler nothing is built again once a request for it has returned
NoRebuild == ~rebuilt
\* while the lock is held during construction, a healthy sampler builds every key at most once
Once == HOLD /\ Healthy => \A i, j \in DOMAIN keyOf : keyOf[i] = keyOf[j] => i = j
\* a request fails only when its own constructor panicked
FailsAlone == \A t \in T : got[t] = -1 => key[t] \in boomed
\* nobody stays blocked
Free == (\A t \in T : pc[t] = "idle" /\ left[t] = 0) \/ ENABLED Next
Finishes == <>(\A t \in T : pc[t] = "idle" /\ left[t] = 0)
=============================================================================
