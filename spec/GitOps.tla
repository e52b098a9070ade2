------------------------------- MODULE GitOps -------------------------------
(***************************************************************************)
(* Files under version control.  A path is a sequence of names.  A state:  *)
(* [wt: what lies at each path, repos: for each directory that may become  *)
(* a repository [on, born: has a commit, head: the last commit, index,     *)
(* flag: files whose changes git is told not to look for]].  Everything    *)
(* that may stand at a path is a record [k: kind, c: content].             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

None == [k |-> "none", c |-> 0]
Intended == [k |-> "intended", c |-> 0]     \* git add -N
Unmerged == [k |-> "unmerged", c |-> 0]
Normal(v) == v.k \in {"file", "exec", "link"}

Under(d, p) == Len(d) < Len(p) /\ SubSeq(p, 1, Len(d)) = d
Clash(p, q) == Under(p, q) \/ Under(q, p)
Empty(F) == [p \in F |-> None]
NoRepo(F) == [on |-> FALSE, born |-> FALSE, head |-> Empty(F), index |-> Empty(F), flag |-> {}]

On(s) == {r \in DOMAIN s.repos : s.repos[r].on}
Nearest(S) == IF S = {} THEN <<>> ELSE <<CHOOSE r \in S : \A q \in S : Len(q) <= Len(r)>>
\* the repository a file or a directory belongs to (or none)
OfFile(s, p) == Nearest({r \in On(s) : Under(r, p)})
OfDir(s, p) == Nearest({r \in On(s) : r = p \/ Under(r, p)})

F(s) == DOMAIN s.wt
Free(f, p) == \A q \in DOMAIN f : Clash(p, q) => f[q] = None

(* what can be done *)
Write(s, p, v) == [s EXCEPT !.wt[p] = v]
Set(s, r, p, v) == [s EXCEPT !.repos[r].index = [q \in F(s) |-> IF q = p THEN v ELSE IF v # None /\ Clash(p, q) THEN None ELSE @[q]]]
Committed(i) == [p \in DOMAIN i |-> IF Normal(i[p]) THEN i[p] ELSE None]
Ok(s, o) ==
    LET Ow(p) == OfFile(s, p)
        R(p) == s.repos[Ow(p)[1]]
        Plain(p) == Ow(p) # <<>> /\ R(p).flag = {}
    IN CASE o.op = "write" -> s.wt[o.p] # o.v /\ Free(s.wt, o.p)
         [] o.op = "remove" -> s.wt[o.p] # None
         [] o.op = "add" -> Plain(o.p) /\ (s.wt[o.p] # None \/ (R(o.p).index[o.p] # None /\ Free(s.wt, o.p)))
                           /\ \A q \in F(s) : Clash(o.p, q) => R(o.p).index[q] # Unmerged     \* git keeps these
         [] o.op = "intend" -> Plain(o.p) /\ s.wt[o.p] # None /\ R(o.p).index[o.p] = None /\ Free(R(o.p).index, o.p)
         [] o.op = "forget" -> Plain(o.p) /\ R(o.p).index[o.p] # None
         [] o.op = "rm" -> Plain(o.p) /\ R(o.p).index[o.p] # None /\ Free(s.wt, o.p)
         [] o.op = "mv" -> Plain(o.p) /\ Ow(o.q) = Ow(o.p) /\ ~Clash(o.p, o.q) /\ o.p # o.q /\ Normal(R(o.p).index[o.p]) /\ s.wt[o.p] # None
                           /\ s.wt[o.q] = None /\ Free(s.wt, o.q) /\ R(o.p).index[o.q] = None /\ Free(R(o.p).index, o.q)
         [] o.op = "restore" -> Plain(o.p) /\ Normal(R(o.p).index[o.p]) /\ s.wt[o.p] # R(o.p).index[o.p] /\ Free(s.wt, o.p)
         [] o.op = "conflict" -> Plain(o.p) /\ Free(R(o.p).index, o.p) /\ Free(s.wt, o.p)
         [] o.op = "flag" -> Ow(o.p) # <<>> /\ Normal(R(o.p).index[o.p]) /\ o.p \notin R(o.p).flag
         [] o.op = "unflag" -> Ow(o.p) # <<>> /\ o.p \in R(o.p).flag
         [] o.op = "commit" -> o.r \in On(s) /\ \A p \in F(s) : s.repos[o.r].index[p] # Unmerged
         [] o.op = "reset" -> o.r \in On(s) /\ s.repos[o.r].flag = {}
         [] o.op = "hard" -> /\ o.r \in On(s) /\ s.repos[o.r].born /\ s.repos[o.r].flag = {}
                             /\ LET x == s.repos[o.r] IN
                                \A p \in F(s) : /\ x.index[p] \notin {Unmerged, Intended}
                                                /\ x.head[p] # None => \A q \in F(s) : Clash(p, q) /\ s.wt[q] # None => x.index[q] # None
         [] o.op = "init" -> o.r \notin On(s) /\ \A r \in On(s), p \in F(s) : Under(o.r, p) => s.repos[r].index[p] = None /\ s.repos[r].head[p] = None
         [] o.op = "worktree" -> /\ o.r \notin On(s) /\ o.of \in On(s) /\ s.repos[o.of].born
                                 /\ \A r \in On(s) : ~Under(o.r, r)
                                 /\ \A p \in F(s) : Under(o.r, p) => s.wt[p] = None /\ \A r \in On(s) : s.repos[r].index[p] = None /\ s.repos[r].head[p] = None
                                 /\ \A p \in F(s) : s.repos[o.of].head[p] # None => (o.r \o SubSeq(p, Len(o.of) + 1, Len(p))) \in F(s)
         [] OTHER -> FALSE
Apply(s, o) ==
    LET r == OfFile(s, o.p)[1] IN
    CASE o.op = "write" -> Write(s, o.p, o.v)
      [] o.op = "remove" -> Write(s, o.p, None)
      [] o.op = "add" -> Set(s, r, o.p, s.wt[o.p])
      [] o.op = "intend" -> Set(s, r, o.p, Intended)
      [] o.op = "forget" -> Set(s, r, o.p, None)
      [] o.op = "rm" -> Write(Set(s, r, o.p, None), o.p, None)
      [] o.op = "mv" -> Write(Write(Set(Set(s, r, o.q, s.repos[r].index[o.p]), r, o.p, None), o.q, s.wt[o.p]), o.p, None)
      [] o.op = "restore" -> Write(s, o.p, s.repos[r].index[o.p])
      [] o.op = "conflict" -> Set(s, r, o.p, Unmerged)
      [] o.op = "flag" -> [s EXCEPT !.repos[r].flag = @ \cup {o.p}]
      [] o.op = "unflag" -> [s EXCEPT !.repos[r].flag = @ \ {o.p}]
      [] o.op = "commit" -> [s EXCEPT !.repos[o.r].head = Committed(s.repos[o.r].index), !.repos[o.r].born = TRUE]
      [] o.op = "reset" -> [s EXCEPT !.repos[o.r].index = s.repos[o.r].head]
      [] o.op = "hard" -> LET x == s.repos[o.r] IN
                          [s EXCEPT !.repos[o.r].index = x.head,
                                    !.wt = [p \in F(s) |-> IF x.head[p] # None THEN x.head[p] ELSE IF x.index[p] # None THEN None ELSE @[p]]]
      [] o.op = "init" -> [s EXCEPT !.repos[o.r].on = TRUE]
      [] o.op = "worktree" -> LET h == s.repos[o.of].head
                                  From(p) == o.of \o SubSeq(p, Len(o.r) + 1, Len(p))
                                  new == [p \in F(s) |-> IF Under(o.r, p) /\ From(p) \in F(s) THEN h[From(p)] ELSE None]
                              IN [s EXCEPT !.repos[o.r] = [on |-> TRUE, born |-> TRUE, head |-> new, index |-> new, flag |-> {}],
                                           !.wt = [p \in F(s) |-> IF new[p] # None THEN new[p] ELSE @[p]]]
      [] OTHER -> s

(* what the attributes are *)
Tracked(s, r, p) == s.repos[r].index[p] # None
Dirty(s, r, p) == LET x == s.repos[r] IN
    Tracked(s, r, p) /\ (~Normal(x.index[p]) \/ x.index[p] # x.head[p] \/ (s.wt[p] # x.index[p] /\ p \notin x.flag))
\* only staged for removal: for a directory either is fine
Dropped(s, r, p) == ~Tracked(s, r, p) /\ s.repos[r].head[p] # None

\* e: [p: path, t: dir, other or git (something below .git)]; the possible values <<tracked, dirty, repository, is its base>>, or <<>>
Attrs(s, e) ==
    LET o == IF e.t = "dir" THEN OfDir(s, e.p) ELSE IF e.t = "git" THEN OfDir(s, e.p) ELSE OfFile(s, e.p) IN
    IF o = <<>> THEN {<<>>}
    ELSE LET r == o[1] IN
         CASE e.t = "git" -> {<<FALSE, FALSE, r, FALSE>>}
           [] e.t = "other" -> {<<e.p \in F(s) /\ Tracked(s, r, e.p), e.p \in F(s) /\ Dirty(s, r, e.p), r, FALSE>>}
           [] OTHER -> LET B == {p \in F(s) : Under(e.p, p)}
                           must == \E p \in B : Dirty(s, r, p)
                           may == \E p \in B : Dropped(s, r, p)
                       IN {<<\E p \in B : Tracked(s, r, p), d, r, r = e.p>> : d \in IF must \/ ~may THEN {must} ELSE {TRUE, FALSE}}
=============================================================================
