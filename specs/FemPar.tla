------------------------------- MODULE FemPar -------------------------------
(* Parallel extension of an eigenproblem: workers take sub-matrix pairs from *)
(* the parallel stream in any order, send them over one channel, and a       *)
(* collector adds every received pair to A and B until all senders are gone. *)
(* EAGER: the collector may run while workers still send (otherwise it starts*)
(* when the parallel loop has returned).  Checked for every interleaving.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, IOUtils

N == atoi(IOEnv.MC_ITEMS)
W == atoi(IOEnv.MC_WORKERS)
EAGER == IOEnv.MC_EAGER = "yes"
Items == 1..N
Workers == 1..W
\* contributions of item k to A and to B, and what A and B held before
InA(k) == 2 ^ k
InB(k) == 3 * 2 ^ k
A0 == 1
B0 == 5

VARIABLES todo,     \* items nobody has taken
          hand,     \* worker -> item in hand, 0 none, -1 its sender is dropped
          chan,     \* messages in the channel
          a, b,     \* the accumulated matrices
          main      \* "loop": the parallel loop is running, "collect", "done"
vars == <<todo, hand, chan, a, b, main>>

Init == todo = Items /\ hand = [w \in Workers |-> 0] /\ chan = <<>> /\ a = A0 /\ b = B0 /\ main = (IF EAGER THEN "collect" ELSE "loop")
Take(w) == hand[w] = 0 /\ \E k \in todo : todo' = todo \ {k} /\ hand' = [hand EXCEPT ![w] = k] /\ UNCHANGED <<chan, a, b, main>>
Send(w) == hand[w] > 0 /\ chan' = Append(chan, hand[w]) /\ hand' = [hand EXCEPT ![w] = 0] /\ UNCHANGED <<todo, a, b, main>>
\* a worker drops its clone of the sender when there is nothing left to take
Drop(w) == hand[w] = 0 /\ todo = {} /\ hand' = [hand EXCEPT ![w] = -1] /\ UNCHANGED <<todo, chan, a, b, main>>
LoopEnds == main = "loop" /\ (\A w \in Workers : hand[w] = -1) /\ main' = "collect" /\ UNCHANGED <<todo, hand, chan, a, b>>
Receive == main = "collect" /\ chan # <<>> /\ a' = a + InA(Head(chan)) /\ b' = b + InB(Head(chan)) /\ chan' = Tail(chan) /\ UNCHANGED <<todo, hand, main>>
\* the channel is empty and closed
Finish == main = "collect" /\ chan = <<>> /\ (\A w \in Workers : hand[w] = -1) /\ main' = "done" /\ UNCHANGED <<todo, hand, chan, a, b>>
Next == (\E w \in Workers : Take(w) \/ Send(w) \/ Drop(w)) \/ LoopEnds \/ Receive \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sum(F(_), S) == FoldSet(LAMBDA k, x : x + F(k), 0, S)
\* every pair is in exactly one place: not taken, in a hand, in the channel, or added once
Once == LET inHand == {hand[w] : w \in Workers} \ {0, -1}
            inChan == {chan[x] : x \in DOMAIN chan}
            rest == todo \cup inHand \cup inChan
        IN /\ Cardinality(inChan) = Len(chan)
           /\ Cardinality(todo) + Cardinality({w \in Workers : hand[w] > 0}) + Len(chan) = Cardinality(rest)
           /\ a = A0 + Sum(InA, Items \ rest) /\ b = B0 + Sum(InB, Items \ rest)
Complete == main = "done" => a = A0 + Sum(InA, Items) /\ b = B0 + Sum(InB, Items)
Stuck == ENABLED Next \/ main = "done"
Terminates == <>(main = "done")
=============================================================================
