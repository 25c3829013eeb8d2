-------------------------- MODULE FemImportTrace --------------------------
(* What Mesh::from_file made of a document; accepted meshes are compared in  *)
(* every view with the mesh the document means.                              *)
EXTENDS FemMeshTrace, FemImport

\* kind: "doc" (the rendered document), or a file that is not one: "missing", "dir", "cut", "bytes"
Expected == IF Sess.kind # "doc" THEN "reject" ELSE Meaning(Sess.doc)
Verdict(ok) == PrintT("VERDICT " \o Sess.sid \o (IF ok THEN " OK" ELSE " BAD"))

ImportInit ==
  /\ s \in DOMAIN Trace
  /\ i = 0 /\ other = <<>>
  /\ LET x == Expected IN
     CASE x = "reject" -> /\ m = EmptyMesh /\ bad = TRUE
                          /\ IF Sess.load = "ok" THEN Say("a malformed file was accepted", Sess.kind) /\ Verdict(FALSE) ELSE Verdict(TRUE)
       [] x = "open"   -> m = EmptyMesh /\ bad = TRUE /\ Verdict(TRUE)
       [] x = "mesh"   ->
            /\ LET b == BaseMesh(CellsOf(Sess.doc), 1, 1)
                   extra == SeqSet(PointsOf(Sess.doc)) \ DOMAIN b.nd
               IN m = [b EXCEPT !.nd = [p \in extra |-> NewNode(TRUE)] @@ @]
            /\ IF Sess.load = "ok"
               THEN /\ bad = FALSE
                    /\ Assert(MatsOf(Sess.doc) = Sess.mats /\ CellsOf(Sess.doc) = Sess.cells, "driver and specification read the document differently")
               ELSE bad = TRUE /\ Say("a correct file was refused", Sess.load) /\ Verdict(FALSE)

ImportSpec == ImportInit /\ [][Next]_vars
=============================================================================
