--------------------------- MODULE FemSlepcTrace ---------------------------
(* Recorded calls of the external solver.  One transition per call, then one*)
(* that judges what the session has done to the directory.                  *)
EXTENDS FemSparse, FemSlepc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
vars == <<s, i, bad>>
Sess == Trace[s]
Say(what, detail) == PrintT("MISMATCH " \o Sess.sid \o " call=" \o ToString(i) \o " " \o what \o " " \o ToString(detail))
Ok(what, c, detail) == IF c THEN TRUE ELSE Say(what, detail) /\ FALSE

Matrix(dim, es) == InsertGroup(NewMatrix(dim), [k \in 1..Len(es) |-> <<es[k][1], es[k][2], F64(es[k][3])>>])
\* bytes of the solution files as words of eight hexadecimal digits (the last may be shorter)
Has(c, f) == \E k \in DOMAIN c.files : c.files[k][1] = f
File(c, f) == c.files[CHOOSE k \in DOMAIN c.files : c.files[k][1] = f][2]
Whole(w) == IF w # <<>> /\ Len(w[Len(w)]) # 8 THEN Len(w) - 1 ELSE Len(w)
EvecReadable(c) == Has(c, "_evec.dat") /\ LET w == File(c, "_evec.dat")  n == Whole(w)  m == IF n < 2 THEN -1 ELSE Hex32(w[2]) IN
                     n >= 2 /\ w[1] = "00127b4e" /\ m >= 0 /\ m <= n /\ 2 + 2 * m <= n
EvalReadable(c) == Has(c, "_eval.dat") /\ Whole(File(c, "_eval.dat")) >= 2
\* bytes after the solution: whether they are ignored or make the file unreadable is not specified
Surplus(c) == \/ LET w == File(c, "_evec.dat") IN Len(w) # 2 + 2 * Hex32(w[2])
              \/ Len(File(c, "_eval.dat")) # 2
Pair(c) == LET w == File(c, "_evec.dat")  v == File(c, "_eval.dat") IN
             <<v[1] \o v[2], [k \in 1..Hex32(w[2]) |-> w[2 * k + 1] \o w[2 * k + 2]]>>

\* the environment of the session
Named == Sess.env \notin {"unset", "bytes"}
DirThere == Sess.env \notin {"nodir", "notmp", "tmpfile"}
Fits(c) == Sess.limit = 0 \/ (4 * PetscWords(Matrix(c.dim[1], c.a)) <= Sess.limit /\ 4 * PetscWords(Matrix(c.dim[2], c.b)) <= Sess.limit)
Launched(c) == Named /\ DirThere /\ Fits(c) /\ Sess.launch = "ok"
How(c) == [named |-> Named, written |-> DirThere /\ Fits(c), launched |-> Launched(c), signal |-> c.signal, exit |-> c.exit, clean |-> ~c.rmtmp,
           readable |-> EvecReadable(c) /\ EvalReadable(c)]

\* the one launch of the solver: command line and matrix files
Arg(r, f, v) == \E k \in 1..(Len(r.args) - 1) : r.args[k] = f /\ r.args[k + 1] = v
RecOk(c, r) ==
  /\ Ok("working directory", r.cwd, r)
  /\ Ok("program", \E k \in DOMAIN r.args : r.args[k] = "./solve_gep", r.args)
  /\ Ok("one process", Arg(r, "-np", "1"), r.args)
  /\ Ok("prefix", r.fp # "", r.args)
  /\ Ok("target", IsDecimal(r.te) /\ AtMost(Abs(Sub(FromDecimal(r.te), F64(c.t))), FromDecimal("0.00000000005")), <<r.te, Decimal(F64(c.t))>>)
  /\ Ok("files handed over", r.files = <<"_a.dat", "_b.dat">>, r.files)
  /\ LET p == PetscProblem(r.wa, Matrix(c.dim[1], c.a)) IN Ok("matrix A: " \o p, p = "", r.wa)
  /\ LET p == PetscProblem(r.wb, Matrix(c.dim[2], c.b)) IN Ok("matrix B: " \o p, p = "", r.wb)

CallOk(c) ==
  LET o == c.out  right == Answers(How(c)) IN
  /\ Ok("launches", Len(o.rec) = IF Launched(c) THEN 1 ELSE 0, Len(o.rec))
  /\ \A k \in DOMAIN o.rec : RecOk(c, o.rec[k])
  /\ Ok("answer", o.r \in right \/ (right = {"ok"} /\ Surplus(c) /\ o.r = "io"), <<o.r, right, c.exit, c.signal>>)
  /\ o.r = "ok" => Ok("eigenpair", <<o.v, o.x>> = Pair(c), <<o.v, o.x>>)
  /\ Ok("own files are gone", o.left = <<>>, o.left)
  /\ c.rmtmp \/ Ok("files of similar runs are untouched", o.harmed = <<>>, o.harmed)

EndOk == LET gone == \E k \in DOMAIN Sess.calls : Sess.calls[k].rmtmp IN
  /\ Ok("unknown launches", Sess.lost = <<>>, Sess.lost)
  /\ gone \/ Ok("directory afterwards", Sess.after = Sess.before, <<Sess.before, Sess.after>>)

Init == s \in DOMAIN Trace /\ i = 0 /\ bad = FALSE
Next ==
  /\ ~bad /\ i <= Len(Sess.calls)
  /\ i' = i + 1 /\ s' = s
  /\ LET ok == IF i < Len(Sess.calls) THEN CallOk(Sess.calls[i + 1]) ELSE EndOk IN
     /\ bad' = ~ok
     /\ IF ~ok THEN PrintT("VERDICT " \o Sess.sid \o " BAD")
        ELSE IF i = Len(Sess.calls) THEN PrintT("VERDICT " \o Sess.sid \o " OK") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
