-------------------------- MODULE FemCavityTrace --------------------------
\* the same recordings, judged against the resonances of a rectangular cavity
EXTENDS FemSpaceTrace
===========================================================================
