------------------------------ MODULE FemSlepc ------------------------------
(* What a call of the external solver must answer, as a function of what     *)
(* happened: whether the solver directory is named, the matrices could be    *)
(* written, the launcher could be started, how the solver ended, and what it *)
(* left in its two solution files.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* documented meaning of the solver's exit status
StatusError(n) == CASE n = 1 -> "FailedToInitializeSlepc"
                    [] n = 2 -> "BadArguments"
                    [] n = 3 -> "FailedToInitializeMatrices"
                    [] n \in {4, 5, 6} -> "FailedToInitializeEPS"
                    [] n = 7 -> "FailedToConverge"
                    [] n = 8 -> "FailedToReturnSolution"
                    [] OTHER -> "UnknownError"
\* h: [named, written, launched, signal, exit, clean, readable]; the set of answers that are right
Answers(h) ==
  CASE ~h.named -> {"SolverNotFound"}
    [] ~h.written -> {"io"}
    [] ~h.launched -> {"FailedToExecute"}
    \* the directory itself is gone: that may be reported instead
    [] h.signal # 0 -> {"UnknownError"} \cup (IF h.clean THEN {} ELSE {"io"})
    [] h.exit # 0 -> {StatusError(h.exit)} \cup (IF h.clean THEN {} ELSE {"io"})
    [] ~h.readable \/ ~h.clean -> {"io", "FailedToReturnSolution"}
    [] OTHER -> {"ok"}
=============================================================================
