---------------------------- MODULE FemImportMC ----------------------------
(* Documents reached from correct ones by editing values, members and keys. *)
EXTENDS FemMeshProps, FemImport, Json, IOUtils

Env(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
BaseName == Env("MC_BASE", "pair")
MaxEdits == atoi(Env("MC_OPS", "1"))
Emit     == Env("MC_EMIT", "no") = "yes"

Elem(ids, ms) == Obj(<<"materials", "node_ids">>, <<Arr([y \in DOMAIN ms |-> Num(ms[y])]), Arr([y \in DOMAIN ids |-> Num(8 * ids[y])])>>)
Pt(x, y) == Arr(<<Num(x), Num(y)>>)
Grid(xs, ys) == [j \in 1..(Len(xs) * Len(ys)) |-> Pt(xs[((j - 1) % Len(xs)) + 1], ys[((j - 1) \div Len(xs)) + 1])]
Doc(es, ns) == Obj(<<"Elements", "Nodes">>, <<Arr(es), Arr(ns)>>)

Docs == [ one  |-> Doc(<<Elem(<<0, 1, 2, 3>>, <<8, 0, 8, 0>>)>>, Grid(<<0, 8>>, <<0, 8>>)),
          pair |-> Doc(<<Elem(<<0, 1, 3, 4>>, <<8, 0, 9, -3>>), Elem(<<1, 2, 4, 5>>, <<12, 1, 16, 0>>)>>, Grid(<<-8, 0, 24>>, <<4, 9>>)),
          col  |-> Doc(<<Elem(<<2, 3, 4, 5>>, <<8, 0, 9, -3>>), Elem(<<0, 1, 2, 3>>, <<12, 1, 16, 0>>)>>, Grid(<<-8, 0>>, <<4, 9, 33>>)),
          quad |-> Doc(<<Elem(<<4, 5, 7, 8>>, <<8, 0, 8, 0>>), Elem(<<0, 1, 3, 4>>, <<1, 2, 3, 4>>),
                         Elem(<<3, 4, 6, 7>>, <<5, 0, 6, 0>>), Elem(<<1, 2, 4, 5>>, <<-1, -2, -3, -4>>)>>,
                       Grid(<<0, 8, 24>>, <<-16, 0, 4>>)) ]

\* values put in place of others
Values == { Num(0), Num(8), Num(16), Num(12), Num(-8), Num(48), Num(72), Lit("n", "1e30"), Lit("n", "-0.5e-3"), Lit("s", "\"1\""),
            Lit("s", "\"\""), Lit("b", "true"), Null, Arr(<<>>), Arr(<<Num(0), Num(8)>>), Obj(<<>>, <<>>) }

RECURSIVE Edits(_)
\* every document obtained from j by one edit at or below j
Edits(j) ==
  Values \cup
  IF j.t \notin {"a", "o"} THEN {}
  ELSE UNION { {[j EXCEPT !.a[y] = w] : w \in Edits(j.a[y])} : y \in DOMAIN j.a }
       \cup { [j EXCEPT !.a = RemoveAt(@, y), !.k = IF j.t = "o" THEN RemoveAt(@, y) ELSE @] : y \in DOMAIN j.a }
       \cup (IF j.t = "o" THEN { [j EXCEPT !.k[y] = @ \o "x"] : y \in DOMAIN j.a } ELSE {})
       \cup (IF j.t = "a" THEN { [j EXCEPT !.a = Append(@, @[y])] : y \in DOMAIN j.a }
                               \cup { [j EXCEPT !.a = Append(@, Num(0))] }
                               \cup { [j EXCEPT !.a = [@ EXCEPT ![y] = j.a[z], ![z] = j.a[y]]] : y, z \in DOMAIN j.a }
             ELSE {})

VARIABLES doc, n
Init == doc = Docs[BaseName] /\ n = 0
Next == n < MaxEdits /\ doc' \in Edits(doc) /\ n' = n + 1
Spec == Init /\ [][Next]_<<doc, n>>
View == doc

EmitTransition == IF Emit THEN PrintT("SCN " \o ToJson([doc |-> doc'])) ELSE TRUE

\* every document has one meaning, and a mesh read from one satisfies the mesh invariants that hold without refinement
Inv == /\ Meaning(doc) \in {"reject", "mesh", "open"}
       /\ (n = 0 => Meaning(doc) = "mesh")
       /\ Meaning(doc) = "mesh" =>
            LET m == BaseMesh(CellsOf(doc), 1, 1) IN
            /\ Cardinality(DOMAIN m.el) = Len(Els(doc))
            /\ \A p \in DOMAIN m.nd : m.nd[p].b = (Cardinality(UNION Range(m.nd[p].q)) # 4)
            /\ \A e \in DOMAIN m.ed : /\ m.ed[e].b = (Cardinality(m.ed[e].s[1] \cup m.ed[e].s[2]) = 1)
                                      /\ Cardinality(m.ed[e].s[1]) <= 1 /\ Cardinality(m.ed[e].s[2]) <= 1
                                      /\ m.ed[e].b <=> e \notin ActiveEdges(m)
            /\ DOMAIN m.nd \subseteq Range(PointsOf(doc))
=============================================================================
