------------------------------- MODULE CacheOps -------------------------------
(***************************************************************************)
(* The metadata cache: what plugins computed is kept per plugin, plugin    *)
(* version and file, together with the tag that the file had at that time. *)
(*                                                                         *)
(* The operators describe what searches, file changes and --clean-cache do *)
(* to files and cache; they are used by the state machine Cache (checked   *)
(* by TLC, source of the histories that are replayed) and by CacheJudge,   *)
(* which judges what the real program did.                                 *)
(*                                                                         *)
(* An existing file: [f: name, c: content, m: mtime, s: size, k: kind].    *)
(* A row of a cache: [x: which cache, p: plugin, v: version, f: file,      *)
(* t: tag, d: data, sure: whether it must still be there].  Rows that are  *)
(* not sure may have got lost or been replaced: a search was killed before *)
(* it had stored everything, or another version of the plugin was used.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* K: plugins -> [tag: "mtime" or "size", kinds: the kinds of files it handles]
Tag(K, p, e) == IF K[p].tag = "size" THEN e.s ELSE e.m
Handles(K, p, e) == \E i \in DOMAIN K[p].kinds : K[p].kinds[i] = e.k
\* what a plugin finds out about a file
Data(p, v, e) == [p |-> p, v |-> v, c |-> e.c]
Row(K, x, p, v, e, sure) == [x |-> x, p |-> p, v |-> v, f |-> e.f, t |-> Tag(K, p, e), d |-> Data(p, v, e), sure |-> sure]
At(files, f) == CHOOSE e \in files : e.f = f
Exists(files, f) == \E e \in files : e.f = f

\* the rows that a search with that version of the plugin may use for the file
Rows(K, db, x, p, v, e) == {r \in db : r.x = x /\ r.p = p /\ r.v = v /\ r.f = e.f /\ r.t = Tag(K, p, e)}
MustReuse(K, db, x, p, v, e) == \E r \in Rows(K, db, x, p, v, e) : r.sure

\* changes of files
Write(files, e) == {a \in files : a.f # e.f} \cup {e}
Remove(files, f) == {a \in files : a.f # f}
Touch(files, f, m) == {IF a.f = f THEN [a EXCEPT !.m = m] ELSE a : a \in files}
Move(files, f, g) == {IF a.f = f THEN [a EXCEPT !.f = g] ELSE a : a \in Remove(files, g)}

\* A search: [x, vers: plugin -> version, done: the pairs <<plugin, file>> that were computed, killed].
\* Several searches at the same time: what they computed replaces what was there.
AfterRuns(K, db, files, runs) ==
    LET Computed(r, p, f) == <<p, f>> \in r.done
        Uses(r, x, p) == r.x = x /\ p \in DOMAIN r.vers
        new == UNION {{Row(K, r.x, pf[1], r.vers[pf[1]], At(files, pf[2]), ~r.killed /\ (\A q \in runs : Uses(q, r.x, pf[1]) => q.vers[pf[1]] = r.vers[pf[1]]))
                          : pf \in {pf \in r.done : Exists(files, pf[2])}} : r \in {r \in runs : r.x # ""}}
        Replaced(o) == \E r \in runs : ~r.killed /\ Uses(r, o.x, o.p) /\ r.vers[o.p] = o.v /\ Computed(r, o.p, o.f)
        Doubtful(o) == \E r \in runs : Uses(r, o.x, o.p) /\ (r.vers[o.p] # o.v \/ (r.killed /\ Computed(r, o.p, o.f)))
    IN {IF Doubtful(o) THEN [o EXCEPT !.sure = FALSE] ELSE o : o \in {o \in db : ~Replaced(o)}} \cup new
\* --clean-cache
Clean(db, files, x) == {r \in db : r.x # x \/ Exists(files, r.f)}

=============================================================================
