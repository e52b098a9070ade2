------------------------------ MODULE CacheSim ------------------------------
(* Histories of the cache for replay: random walks of the state machine, with several searches at the same time. *)
EXTENDS Cache, TLC, Json, Randomization
VARIABLE h
SimKinds == "vc" :> [tag |-> "mtime", kinds |-> <<"f">>] @@ "vc2" :> [tag |-> "size", kinds |-> <<"f">>]
            @@ "vc_2" :> [tag |-> "mtime", kinds |-> <<"f", "d", "l">>] @@ "vca" :> [tag |-> "mtime", kinds |-> <<"f">>]
SimSize == "a" :> 10 @@ "b" :> 10 @@ "NONE" :> 12 @@ "long" :> 300 @@ "nil" :> 12 @@ "zero" :> 12 @@ "empty" :> 0
Dirs == {"d1", "d2"}
\* symbolic links, to nothing; the content is the target
Links == {"l1", "l2"}
SFile(f, c, m) == IF f \in Dirs THEN [f |-> f, c |-> "dir", m |-> m, s |-> 0, k |-> "d"]
                  ELSE IF f \in Links THEN [f |-> f, c |-> IF c = "b" THEN "b" ELSE "a", m |-> m, s |-> 10, k |-> "l"] ELSE [f |-> f, c |-> c, m |-> m, s |-> SimSize[c], k |-> "f"]
Pick(S) == RandomElement(S)
SimInit == /\ \E one \in {1} : files = {SFile(f, Pick(Contents), Pick(Times)) : f \in RandomSubset(7, Names) \cup Dirs}
           /\ db = {} /\ shown = {} /\ examined = {} /\ log = <<"init">> /\ n = 0 /\ h = <<[op |-> "init", files |-> files]>>
Do(next, op) == IF next # files /\ \A e \in next : \A p \in Plugins : \A x \in examined : x[2] = p /\ x[4] = e.f /\ x[5] # e.c => x[6] # Tag(SimKinds, p, e)
                THEN files' = next /\ h' = Append(h, op) /\ UNCHANGED <<db, examined>>
                ELSE UNCHANGED <<files, db, examined, h>>
Chance(k) == Pick(1..100) <= k
\* what there was before comes back (the same content and time under a name where it has been seen)
Old == {x \in examined : x[4] \notin Dirs}
Loose == {e \in files : e.k = "f"}
Skip == UNCHANGED <<files, db, examined, h>>
SimEdit == \E k \in {Pick(1..10)}, f \in {Pick(Names)}, c \in {Pick(Contents)}, m \in {Pick(Times)}, e \in {Pick(files)} :
    CASE k <= 3 -> Do(Write(files, SFile(f, c, m)), [op |-> "write", e |-> SFile(f, c, m)])
      [] k <= 5 -> Do(Touch(files, e.f, m), [op |-> "touch", f |-> e.f, m |-> m])
      [] k <= 7 -> IF e.k # "d" THEN Do(Remove(files, e.f), [op |-> "rm", f |-> e.f]) ELSE Skip
      [] k <= 8 -> IF e.k # "d" /\ e.f # f /\ (e.k = "l") = (f \in Links) THEN Do(Move(files, e.f, f), [op |-> "mv", f |-> e.f, g |-> f]) ELSE Skip
      [] OTHER -> IF Old = {} THEN Skip
                  ELSE \E x \in {Pick(Old)} : \E o \in {SFile(x[4], x[5], IF SimKinds[x[2]].tag = "mtime" THEN x[6] ELSE m)} :
                         Do(Write(files, o), [op |-> "write", e |-> o])
Vers(q) == {[p \in Plugins |-> IF Chance(70) THEN 1 ELSE Pick(Versions)]}
ARun(vers, x, use, k, sel) == [x |-> x, vers |-> vers, use |-> use, killed |-> k > 88, how |-> IF k > 96 THEN "main" ELSE IF k > 92 THEN "int" ELSE "sql", sel |-> sel]
Ideal(r) == {pf \in r.use \X {e.f : e \in files} :
                LET e == At(files, pf[2]) IN Handles(SimKinds, pf[1], e) /\ (r.x = "" \/ Rows(SimKinds, db, r.x, pf[1], r.vers[pf[1]], e) = {})}
Runs1(vers) == UNION {UNION {UNION {{ARun(vers, x, use, Pick(1..100), sel) : sel \in {IF Chance(25) THEN <<Pick(use), Pick(Contents \ {"NONE"})>> ELSE <<>>}}
                                    : use \in {RandomSubset(Pick(1..3), Plugins)}} : x \in {IF Chance(60) THEN "x1" ELSE Pick(Caches)}} : dummy \in {1}}
SimSearch == \E m \in {IF Chance(75) THEN 1 ELSE Pick(2..3)} : \E vers \in Vers(n) : \E va \in {IF Chance(80) THEN vers ELSE w : w \in Vers(n + 1)} :
             \E a \in Runs1(vers), b \in Runs1(va), d \in Runs1(vers) : \E cl \in {IF m > 1 /\ Chance(15) THEN <<a.x>> ELSE <<>>} :
             LET rs == SubSeq(<<a, b, d>>, 1, m)
                 runs == {[x |-> rs[i].x, vers |-> rs[i].vers, done |-> Ideal(rs[i]), killed |-> rs[i].killed] : i \in 1..m}
             IN /\ db' = AfterRuns(SimKinds, db, files, runs)
                /\ examined' = {y \in examined : \A i \in 1..m : rs[i].killed \/ y[1] # rs[i].x \/ y[2] \notin rs[i].use \/ y[3] # rs[i].vers[y[2]] \/ ~Exists(files, y[4])}
                               \cup UNION {{<<rs[i].x, p, rs[i].vers[p], e.f, e.c, Tag(SimKinds, p, e)>> : p \in rs[i].use, e \in files} : i \in {i \in 1..m : rs[i].x # ""}}
                /\ h' = Append(h, [op |-> "runs", runs |-> rs, cleans |-> SelectSeq(cl, LAMBDA q : q # "")]) /\ UNCHANGED files
SimClean == \E x \in {Pick(Caches \ {""})} : db' = Clean(db, files, x) /\ h' = Append(h, [op |-> "clean", x |-> x]) /\ UNCHANGED <<files, examined>>
SimNext == /\ n < MaxOps /\ n' = n + 1
           /\ \E k \in {Pick(1..10)} : IF k <= 5 THEN SimEdit ELSE IF k <= 9 THEN SimSearch ELSE SimClean
           /\ UNCHANGED <<shown, log>>
           /\ (n' = MaxOps => PrintT(<<"HISTORY", ToJson(h')>>))
SimSpec == SimInit /\ [][SimNext]_<<vars, h>>
=============================================================================
