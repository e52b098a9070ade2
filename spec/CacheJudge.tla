----------------------------- MODULE CacheJudge -----------------------------
(***************************************************************************)
(* Judges histories of file changes and searches that the real program     *)
(* carried out: for each search what it showed and which plugins computed  *)
(* data for which files.                                                   *)
(***************************************************************************)
EXTENDS CacheOps, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
SetOf(s) == {s[i] : i \in DOMAIN s}
If(c, name) == IF c THEN {} ELSE {name}
\* what is shown of data
Shown(d) == IF d.c = "NONE" THEN <<>> ELSE <<d>>

\* the data that a run may show
Poss(K, db, run, runs, p, e) ==
    LET own == Data(p, run.vers[p], e) IN
    IF <<p, e.f>> \in run.done THEN {own}
    ELSE {r.d : r \in IF run.x = "" THEN {} ELSE Rows(K, db, run.x, p, run.vers[p], e)}
         \cup (IF \E q \in runs : q.x # "" /\ q.x = run.x /\ p \in DOMAIN q.vers /\ q.vers[p] = run.vers[p] /\ <<p, e.f>> \in q.done THEN {own} ELSE {})
\* (a search with another version of the plugin that runs at the same time may remove what was stored)
Reuse(K, db, run, runs, files) ==
    run.x = "" \/ \A pf \in run.done : Exists(files, pf[2]) =>
        (\E q \in runs : q.x = run.x /\ pf[1] \in DOMAIN q.vers /\ q.vers[pf[1]] # run.vers[pf[1]]) \/
        LET e == At(files, pf[2]) IN ~\E r \in Rows(K, db, run.x, pf[1], run.vers[pf[1]], e) : r.sure /\ r.d = Data(pf[1], run.vers[pf[1]], e)
Judge(K, db, run, runs, files) ==
    LET P(p, e) == Poss(K, db, run, runs, p, e)
        S(p, e) == IF Handles(K, p, e) THEN {Shown(d) : d \in P(p, e)} ELSE {<<>>}
        want == IF run.sel = <<>> THEN <<>> ELSE <<[p |-> run.sel[1], v |-> run.vers[run.sel[1]], c |-> run.sel[2]]>>
        must == {e.f : e \in {e \in files : run.sel = <<>> \/ S(run.sel[1], e) = {want}}}
        may == {e.f : e \in {e \in files : run.sel = <<>> \/ want \in S(run.sel[1], e)}}
        names == {s.f : s \in run.show}
    IN If(Reuse(K, db, run, runs, files), "an unchanged file was examined again")
       \cup If(\A pf \in run.done : Exists(files, pf[2]) /\ Handles(K, pf[1], At(files, pf[2])), "a plugin was given a file it does not handle")
       \cup IF run.killed THEN {}
            ELSE IF "lax" \in DOMAIN run THEN If(run.st = 0, "exit status")
            ELSE If(run.st = 0, "exit status")
                 \cup If(run.ok /\ Cardinality(run.show) = run.n, "output")
                 \cup If(must \subseteq names /\ names \subseteq may, "results")
                 \cup If(\A s \in run.show : Exists(files, s.f) => \A p \in DOMAIN s.vals : s.vals[p] \in S(p, At(files, s.f)), "values")

Runs(op) == {[op.runs[i] EXCEPT !.done = SetOf(op.runs[i].done), !.show = SetOf(op.runs[i].show)] : i \in DOMAIN op.runs}
RECURSIVE Fold(_, _, _, _, _)
Fold(K, ops, i, files, db) ==
    IF i > Len(ops) THEN {}
    ELSE LET op == ops[i] IN
         CASE op.op = "write" -> Fold(K, ops, i + 1, Write(files, op.e), db)
           [] op.op = "touch" -> Fold(K, ops, i + 1, Touch(files, op.f, op.m), db)
           [] op.op = "rm" -> Fold(K, ops, i + 1, Remove(files, op.f), db)
           [] op.op = "mv" -> Fold(K, ops, i + 1, Move(files, op.f, op.g), db)
           [] op.op = "clean" -> If(op.st = 0, "exit status of --clean-cache at " \o ToString(i)) \cup Fold(K, ops, i + 1, files, TLCEval(Clean(db, files, op.x)))
           [] op.op = "runs" ->
                LET runs == TLCEval(Runs(op))
                    bad == TLCEval(UNION {Judge(K, db, r, runs, files) : r \in runs})
                    \* cleaning at the same time
                    xs == SetOf(op.cleans)
                    db2 == {r \in db : r.x \notin xs \/ Exists(files, r.f)}
                    gone == {r \in db : r \notin db2}
                IN {b \o " at " \o ToString(i) : b \in bad} \cup If(op.cst = 0, "exit status of --clean-cache at " \o ToString(i))
                   \cup (IF bad # {} THEN {} ELSE Fold(K, ops, i + 1, files, TLCEval(AfterRuns(K, db2, files, runs))))
VARIABLE k
Verdict == LET r == Recs[k] bad == Fold(r.K, r.ops, 1, SetOf(r.files), {}) IN bad = {} \/ PrintT("BAD " \o ToString(r.id) \o " " \o ToString(bad))
JInit == k \in DOMAIN Recs
JNext == FALSE /\ UNCHANGED k
JSpec == JInit /\ [][JNext]_k
=============================================================================
