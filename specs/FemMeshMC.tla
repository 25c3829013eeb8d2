----------------------------- MODULE FemMeshMC -----------------------------
(* Exhaustive exploration of refinement histories on small base meshes.     *)
(* Every transition taken is printed as a scenario ("SCN <json>") for the   *)
(* conformance driver; the history itself is hidden from state identity.    *)
EXTENDS FemMeshProps, Json, IOUtils

Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
BaseName == Env("MC_BASE", "unit")
MaxOps   == atoi(Env("MC_OPS", "2"))
Batch    == Env("MC_BATCH", "no") = "yes"
POps     == Env("MC_P", "no") = "yes"
Emit     == Env("MC_EMIT", "no") = "yes"
Toks     == IF Env("MC_TOKS", "all") = "plain" THEN {"T", "U", "V"} ELSE HTokens

Bases == [ unit |-> << <<-16, -16, 16, 16>> >>,
           pair |-> << <<0, 0, 32, 16>>, <<32, 0, 64, 16>> >>,
           col  |-> << <<0, 0, 16, 32>>, <<0, 32, 16, 64>> >>,
           quad |-> << <<0, 0, 16, 16>>, <<16, 0, 48, 16>>, <<0, 16, 16, 48>>, <<16, 16, 48, 48>> >>,
           ring |-> << <<0, 0, 16, 16>>, <<16, 0, 32, 16>>, <<32, 0, 48, 16>>, <<0, 16, 16, 32>>, <<32, 16, 48, 32>>,
                       <<0, 32, 16, 48>>, <<16, 32, 32, 48>>, <<32, 32, 48, 48>> >>,
           diag |-> << <<0, 0, 16, 16>>, <<16, 16, 32, 32>> >>,
           ell  |-> << <<0, 0, 16, 16>>, <<16, 0, 32, 16>>, <<0, 16, 16, 32>> >> ]

VARIABLES m, hist
Init == /\ m = BaseMesh(Bases[BaseName], 1, 1) /\ hist = <<>>

HSingle == \E k \in Leaves(m), t \in Toks :
             /\ m' = Refine(m, k, t)
             /\ hist' = Append(hist, [op |-> "hx", items |-> << <<k, t>> >>])

\* two items of one batch: on different leaves, or combined on one leaf
HBatch == /\ Batch
          /\ \E a, b \in Leaves(m), s, t \in Toks :
               LET items == << <<a, s>>, <<b, t>> >> IN
               /\ m' = HApply(m, items)
               /\ hist' = Append(hist, [op |-> "hx", items |-> items])

PSingle == /\ POps
           /\ \E k \in DOMAIN m.el, d \in {<<1, 0>>, <<0, 2>>, <<-1, 1>>} :
               LET items == << <<k, d[1], d[2]>> >> IN
               /\ PAdmissible(m, items)
               /\ m' = PApply(m, items)
               /\ hist' = Append(hist, [op |-> "px", items |-> items])

Next == Len(hist) < MaxOps /\ (HSingle \/ HBatch \/ PSingle)
Spec == Init /\ [][Next]_<<m, hist>>

View == <<m, Len(hist)>>

EmitTransition == IF Emit THEN PrintT("SCN " \o ToJson([base |-> Bases[BaseName], ops |-> hist'])) ELSE TRUE

Inv == MeshInvariant(m)
Confluent == Confluence(m, {"T", "U", "V"})
ASSUME CombinationLaws
=============================================================================
