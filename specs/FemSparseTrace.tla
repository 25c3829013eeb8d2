--------------------------- MODULE FemSparseTrace ---------------------------
(* One transition per recorded operation on matrices and eigenproblems; the  *)
(* state holds the exact matrices the specification has.                     *)
EXTENDS FemSparse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, mm, gg, bad
vars == <<s, i, mm, gg, bad>>
Sess == Trace[s]
Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " op=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE

Val(h) == F64(h)
Group(g) == [k \in 1..Len(g) |-> <<g[k][1], g[k][2], Val(g[k][3])>>]
\* a value is the double that was accumulated: exact for the inputs the generator uses
SameHex(h, v) == F64Finite(h) /\ Same(F64(h), v)

ReadOk(r, m) ==
  LET u == Upper(m) IN
  /\ Ok("dimension", r.dim = m.dim, r.dim)
  /\ Ok("entry count", r.n = Count(m), <<r.n, Count(m)>>)
  /\ Ok("upper triangle positions", [k \in 1..Len(r.e) |-> <<r.e[k][1], r.e[k][2]>>] = u, <<r.e, u>>)
  /\ \A k \in 1..Len(r.e) : Ok("entry", SameHex(r.e[k][3], m.e[u[k]]), <<r.e[k], Decimal(m.e[u[k]])>>)

DenseOk(d, m) ==
  /\ Ok("dense shape", d.sh = <<m.dim, m.dim>>, d.sh)
  /\ \A r \in 1..m.dim : \A c \in 1..m.dim :
       Ok("dense entry", SameHex(d.m[r][c], Entry(m, r - 1, c - 1)), <<r - 1, c - 1, d.m[r][c], Decimal(Entry(m, r - 1, c - 1))>>)

PetscOk(w, m) == LET p == PetscProblem(w, m) IN Ok("PETSc file: " \o p, p = "", <<m.dim, w>>)

AllInside(o) == \A k \in DOMAIN o[3] : Inside2(mm[o[2]], o[3][k][1], o[3][k][2])
SameDim(o) == mm[o[2]].dim = mm[o[3]].dim
ParItems(o, x) == FoldLeft(LAMBDA m, it : InsertGroup(m, Group(it[x])), gg[o[2]][x], o[3])

\* is the recorded answer the one the specification gives?
Right(e) ==
  LET o == e.op  r == e.r  v == e.v IN
  CASE o[1] \in {"new", "cpy", "gnew", "gof", "par"} -> Ok(o[1], r = "ok", r)
    [] o[1] = "newbig" -> Ok("largest dimension", r = IF AtMost(FromDecimal(o[2]), FromDecimal("4294967295")) THEN "ok" ELSE "panic", <<o, r>>)
    [] o[1] = "ins" -> Ok("insert", r = IF Inside2(mm[o[2]], o[3], o[4]) THEN "ok" ELSE "panic", <<o, r>>)
    [] o[1] = "grp" -> Ok("insert_group", r = IF AllInside(o) THEN "ok" ELSE "panic", <<o, r>>)
    [] o[1] = "con" -> Ok("consume_matrix", r = IF SameDim(o) THEN "ok" ELSE "panic", <<o, r>>)
    [] o[1] = "read" -> Ok("read", r = "ok", r) /\ ReadOk(v, mm[o[2]])
    [] o[1] = "dense" -> Ok("dense", r = "ok", r) /\ DenseOk(v, mm[o[2]])
    [] o[1] = "petsc" -> /\ Ok("petsc", r = "ok", r)
                         /\ IF o[4] \in {"full", "mfull"} THEN Ok("writing to a full device", v.r = "err", v.r)
                            ELSE Ok("petsc outcome", v.r = "ok", v.r) /\ PetscOk(v.w, mm[o[2]])
    [] o[1] = "pair" -> /\ Ok("pair", r = "ok", r) /\ Ok("pair outcome", v.r = "ok", v.r)
                        /\ Ok("files", v.files = <<o[4] \o "_a.dat", o[4] \o "_b.dat">>, v.files)
                        /\ DenseOk(v.a, mm[o[2]]) /\ DenseOk(v.b, mm[o[3]]) /\ PetscOk(v.wa, mm[o[2]]) /\ PetscOk(v.wb, mm[o[3]])
    [] o[1] = "gread" -> Ok("gep", r = "ok", r) /\ ReadOk(v[1], gg[o[2]][1]) /\ ReadOk(v[2], gg[o[2]][2])

\* the specification's state afterwards
With(f, x, v) == [k \in DOMAIN f \cup {x} |-> IF k = x THEN v ELSE f[k]]
MatsAfter(o) ==
  CASE o[1] = "new" -> With(mm, o[2], NewMatrix(o[3]))
    [] o[1] = "ins" -> IF Inside2(mm[o[2]], o[3], o[4]) THEN With(mm, o[2], InsertEntry(mm[o[2]], o[3], o[4], Val(o[5]))) ELSE mm
    \* a refused group leaves its matrix in an unspecified state: it is not used any more
    [] o[1] = "grp" -> IF AllInside(o) THEN With(mm, o[2], InsertGroup(mm[o[2]], Group(o[3]))) ELSE [k \in DOMAIN mm \ {o[2]} |-> mm[k]]
    [] o[1] = "con" -> IF SameDim(o) THEN [mm EXCEPT ![o[2]] = Merged(@, mm[o[3]]), ![o[3]] = Emptied(@)] ELSE mm
    [] o[1] = "cpy" -> With(mm, o[2], mm[o[3]])
    [] OTHER -> mm
GepsAfter(o) ==
  CASE o[1] = "gnew" -> With(gg, o[2], <<NewMatrix(o[3]), NewMatrix(o[3])>>)
    [] o[1] = "gof" -> With(gg, o[2], <<mm[o[3]], mm[o[4]]>>)
    [] o[1] = "par" -> With(gg, o[2], <<ParItems(o, 1), ParItems(o, 2)>>)    \* the sum over all items, whatever the schedule
    [] OTHER -> gg

Init == s \in DOMAIN Trace /\ i = 0 /\ mm = <<>> /\ gg = <<>> /\ bad = FALSE
Next ==
  /\ ~bad /\ i < Len(Sess.log)
  /\ i' = i + 1 /\ s' = s
  /\ LET e == Sess.log[i + 1]  ok == Right(e) IN
     /\ bad' = ~ok
     /\ mm' = IF ok THEN MatsAfter(e.op) ELSE mm
     /\ gg' = IF ok THEN GepsAfter(e.op) ELSE gg
     /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
        ELSE IF i + 1 = Len(Sess.log) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
