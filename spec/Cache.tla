-------------------------------- MODULE Cache --------------------------------
(* The state machine of the metadata cache.  `Variant` selects deliberately wrong caches. *)
EXTENDS CacheOps
CONSTANTS Plugins, Kinds, Versions, Names, Contents, Times, Caches, Variant, MaxOps
VARIABLES files, db, shown, examined, log, n
vars == <<files, db, shown, examined, log, n>>

SizeOf(c) == IF c = "long" THEN 2 ELSE 1
File(f, c, m) == [f |-> f, c |-> c, m |-> m, s |-> SizeOf(c), k |-> "f"]
Init == /\ files = {File(f, CHOOSE c \in Contents : TRUE, CHOOSE m \in Times : TRUE) : f \in Names}
        /\ db = {} /\ shown = {} /\ examined = {} /\ log = <<"init">> /\ n = 0
\* examined: what the last search that came to an end, and the killed ones after it, saw: <<cache, plugin, version, file, content, tag>>;
\* the promise of the cache is made for changes that change the tag
Promise(e) == \A p \in Plugins : \A x \in examined : x[2] = p /\ x[4] = e.f /\ x[5] # e.c => x[6] # Tag(Kinds, p, e)
Change(next, what) == /\ \A e \in next : Promise(e)
                      /\ next # files
                      /\ files' = next /\ log' = what /\ shown' = {} /\ UNCHANGED <<db, examined>>
Edit == \/ \E f \in Names, c \in Contents, m \in Times : Change(Write(files, File(f, c, m)), <<"write", f, c, m>>)
        \/ \E e \in files, m \in Times : Change(Touch(files, e.f, m), <<"touch", e.f, m>>)
        \/ \E e \in files : Change(Remove(files, e.f), <<"rm", e.f>>)
        \/ \E e \in files, g \in Names : e.f # g /\ Change(Move(files, e.f, g), <<"mv", e.f, g>>)
\* what a search finds in the cache
Found(x, p, v, e) ==
    CASE Variant = "notag" -> {r \in db : r.x = x /\ r.p = p /\ r.v = v /\ r.f = e.f}
      [] Variant = "noversion" -> {r \in db : r.x = x /\ r.p = p /\ r.f = e.f /\ r.t = Tag(Kinds, p, e)}
      [] Variant = "noplugin" -> {r \in db : r.x = x /\ r.v = v /\ r.f = e.f /\ r.t = e.m}
      [] OTHER -> Rows(Kinds, db, x, p, v, e)
Search(x, p, v, killed) ==
    LET hits == {e \in files : Found(x, p, v, e) # {}}
        run == [x |-> x, vers |-> [q \in {p} |-> v], done |-> {<<p, e.f>> : e \in files \ hits}, killed |-> killed]
        keep == IF Variant = "keep" THEN db ELSE {}
    IN /\ shown' = {<<p, v, e.f, IF e \in hits THEN (CHOOSE r \in Found(x, p, v, e) : TRUE).d ELSE Data(p, v, e), e \in hits>> : e \in files}
       /\ db' = (IF Variant = "forget" THEN {r \in AfterRuns(Kinds, db, files, {run}) : r \in db} ELSE AfterRuns(Kinds, db, files, {run})) \cup keep
       /\ examined' = {y \in examined : killed \/ ~(y[1] = x /\ y[2] = p /\ y[3] = v /\ (\E e \in files : e.f = y[4]))}
                      \cup {<<x, p, v, e.f, e.c, Tag(Kinds, p, e)>> : e \in files}
       /\ log' = <<"search", x, p, v, killed>>
       /\ UNCHANGED files
CleanUp(x) == /\ db' = IF Variant = "cleanall" THEN {r \in db : r.x # x} ELSE IF Variant = "cleannone" THEN db ELSE Clean(db, files, x)
              /\ examined' = {y \in examined : y[1] # x \/ Exists(files, y[4])}
              /\ log' = <<"clean", x>> /\ shown' = {} /\ UNCHANGED files
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ Edit
           \/ \E x \in Caches, p \in Plugins, v \in Versions, killed \in BOOLEAN : Search(x, p, v, killed)
           \/ \E x \in Caches : CleanUp(x)
Spec == Init /\ [][Next]_vars

\* a search shows what the plugin would find out now
Transparent == \A s \in shown : s[4] = Data(s[1], s[2], At(files, s[3]))
\* a search right after one with the same version of the plugin computes nothing
Reused == [][log[1] = "search" /\ log'[1] = "search" /\ ~log[5] /\ log[2] = log'[2] /\ log[3] = log'[3] /\ log[4] = log'[4] => \A s \in shown' : s[5]]_vars
\* other plugins' data are not affected
Apart == [][log'[1] = "search" => {r \in db : r.p # log'[3] \/ r.x # log'[2]} \subseteq db']_vars
\* cleaning removes exactly the rows of files that do not exist
Cleaned == [][log'[1] = "clean" => db' = {r \in db : r.x # log'[2] \/ \E e \in files : e.f = r.f}]_vars
\* there is at most one sure row per file
OneRow == \A r, q \in db : r.sure /\ q.sure /\ r.x = q.x /\ r.p = q.p /\ r.v = q.v /\ r.f = q.f => r = q
=============================================================================
