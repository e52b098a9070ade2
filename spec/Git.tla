--------------------------------- MODULE Git ---------------------------------
(* The state machine of GitOps over a small set of paths, and what has to hold in it. *)
EXTENDS GitOps, TLC
CONSTANTS Size, Variant
Paths == CASE Size = 1 -> {<<"r", "f">>, <<"r", "g">>}
           [] Size = 2 -> {<<"r", "x">>, <<"r", "x", "f">>}
           [] Size = 3 -> {<<"r", "f">>, <<"r", "n", "f">>}
           [] OTHER -> {<<"r", "f">>, <<"r", "x">>, <<"r", "x", "f">>, <<"r", "n", "f">>}
Repos == IF Size < 3 THEN {<<"r">>} ELSE {<<"r">>, <<"r", "n">>}
Values == [k : {"file"}, c : IF Size = 1 THEN 0..1 ELSE {0}]
VARIABLES s, last
vars == <<s, last>>
Ops == [op : {"remove", "add", "intend", "forget", "rm", "restore", "conflict", "flag", "unflag"}, p : Paths]
       \cup [op : {"write"}, p : Paths, v : Values] \cup [op : {"mv"}, p : Paths, q : Paths]
       \cup [op : {"commit", "reset", "hard", "init"}, r : Repos, p : {<<>>}] \cup [op : {"worktree"}, r : Repos, of : Repos, p : {<<>>}]
Init == s = [wt |-> Empty(Paths), repos |-> [r \in Repos |-> NoRepo(Paths)]] /\ last = [op |-> "", r |-> <<>>, p |-> <<>>]
\* variants: mistakes that the invariants must notice
Step(o) == CASE Variant = "keepclash" /\ o.op = "add" -> [s EXCEPT !.repos[OfFile(s, o.p)[1]].index[o.p] = s.wt[o.p]]
             [] Variant = "commitwt" /\ o.op = "commit" -> [Apply(s, o) EXCEPT !.repos[o.r].head = [p \in Paths |-> IF OfFile(s, p) = <<o.r>> THEN s.wt[p] ELSE None]]
             [] Variant = "hardkeeps" /\ o.op = "hard" -> [s EXCEPT !.repos[o.r].index = s.repos[o.r].head]
             [] Variant = "nested" /\ o.op = "init" -> [s EXCEPT !.repos[o.r].on = TRUE, !.repos[o.r].index = [p \in Paths |-> IF Under(o.r, p) THEN s.wt[p] ELSE None]]
             [] OTHER -> Apply(s, o)
Next == \E o \in Ops : Ok(s, o) /\ s' = Step(o) /\ last' = o
Spec == Init /\ [][Next]_vars

\* no file and directory at the same place
Trees == /\ \A p \in Paths : s.wt[p] # None => Free(s.wt, p)
         /\ \A r \in On(s), p \in Paths : (s.repos[r].index[p] # None => Free(s.repos[r].index, p)) /\ (s.repos[r].head[p] # None => Free(s.repos[r].head, p))
\* a repository knows only files below it that belong to no other repository
Own == \A r \in On(s), p \in Paths : s.repos[r].index[p] # None \/ s.repos[r].head[p] # None => OfFile(s, p) = <<r>>
Idle == \A r \in Repos \ On(s) : s.repos[r] = NoRepo(Paths)
\* right after it, nothing is different from the last commit
AfterHard == last.op = "hard" => \A p \in Paths : OfFile(s, p) = <<last.r>> => ~Dirty(s, last.r, p)
AfterReset == last.op \in {"reset", "hard"} => \A p \in Paths : s.repos[last.r].index[p] = s.repos[last.r].head[p]
AfterAdd == last.op = "add" => LET r == OfFile(s, last.p)[1] IN Tracked(s, r, last.p) = (s.wt[last.p] # None)
AfterCommit == last.op = "commit" => \A p \in Paths : Normal(s.repos[last.r].index[p]) /\ (s.wt[p] = s.repos[last.r].index[p]) => ~Dirty(s, last.r, p)
Nothing == last.op = "commit" => \A p \in Paths : LET x == s.repos[last.r] IN x.index[p] # Intended => x.head[p] = x.index[p]
AfterInit == last.op = "init" => \A p \in Paths : OfFile(s, p) = <<last.r>> => ~Tracked(s, last.r, p)
\* what is dirty is tracked; what a directory is follows from the files below it
DirtyTracked == \A p \in Paths : \A v \in Attrs(s, [p |-> p, t |-> "other"]) : v # <<>> /\ v[2] => v[1]
Upward == \A r \in Repos : \A v \in Attrs(s, [p |-> r, t |-> "dir"]) : v # <<>> /\ v[3] = r =>
              \A p \in Paths : \A u \in Attrs(s, [p |-> p, t |-> "other"]) : OfFile(s, p) = <<r>> => (u[1] => v[1]) /\ (u[2] => v[2])
=============================================================================
