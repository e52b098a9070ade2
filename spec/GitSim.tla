------------------------------- MODULE GitSim -------------------------------
(* Random histories for Git. *)
EXTENDS GitOps, TLC, Json
VARIABLES s, h, n
Top == {<<"r">>, <<"r2">>, <<"s">>}
Rel == {<<"f">>, <<"g">>, <<"x">>, <<"x", "f">>, <<"d", "f">>, <<"d", "g">>, <<"d", "e", "f">>, <<"dx", "f">>}
Repos == {<<"r">>, <<"s">>, <<"r", "n">>, <<"r", "n", "m">>, <<"r", "d", "k">>, <<"s", "n">>}
Paths == {<<"f">>, <<"r2", "f">>, <<"r2", "d", "f">>} \cup {r \o p : r \in {<<"r">>, <<"s">>}, p \in Rel}
         \cup {r \o p : r \in {<<"r", "n">>, <<"r", "d", "k">>, <<"s", "n">>, <<"r", "n", "m">>}, p \in {<<"f">>, <<"x">>, <<"x", "f">>, <<"d", "f">>}}
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
Kinds == <<"file", "file", "file", "exec", "link">>
SimInit == s = [wt |-> Empty(Paths), repos |-> [r \in Repos |-> NoRepo(Paths)]] /\ h = <<>> /\ n = 0
\* most operations concern what is there already
Some(S) == IF S = {} THEN {Pick(Paths)} ELSE {IF Chance(80) THEN Pick(S) ELSE Pick(Paths)}
There == {p \in Paths : s.wt[p] # None}
Known == {p \in Paths : \E r \in On(s) : s.repos[r].index[p] # None}
Inside == {p \in Paths : OfFile(s, p) # <<>>}
Do(o) == Ok(s, o) /\ s' = Apply(s, o) /\ h' = Append(h, o) /\ n' = n
V(x) == [k |-> Kinds[Pick(1..5)], c |-> Pick(0..x)]
WriteOp == \E p \in Some(Inside), v \in {V(5)} : Do([op |-> "write", p |-> p, v |-> v])
ChangeOp == \E p \in Some(Known), v \in {V(5)} : Do([op |-> "write", p |-> p, v |-> v])
\* the same content at another place: looks like a rename
CopyOp == \E p \in Some(There), q \in Some(Inside) : s.wt[p] # None /\ Do([op |-> "write", p |-> q, v |-> s.wt[p]])
AddOp == \E p \in Some(There \cap Inside) : Do([op |-> "add", p |-> p])
On1(op, S) == \E p \in Some(S) : Do([op |-> op, p |-> p])
Mv == \E p \in Some(Known), q \in Some(Inside) : Do([op |-> "mv", p |-> p, q |-> q])
Whole(op, k) == Chance(k) /\ \E r \in {Pick(Repos)} : Do([op |-> op, r |-> r, p |-> <<>>])
Worktree == \E r \in {Pick(Repos)}, of \in {Pick(Repos)} : r # of /\ Do([op |-> "worktree", r |-> r, of |-> of, p |-> <<>>])
Look == h # <<>> /\ h[Len(h)].op # "look" /\ Chance(50) /\ h' = Append(h, [op |-> "look"]) /\ UNCHANGED <<s, n>>
\* a repository to begin with
Setup == /\ n = 0
         /\ \E k \in {Pick(10..70)}, q \in {Pick({<<>>, <<"r">>, <<"s">>, <<"r">>})} :
              /\ n' = k
              /\ IF q = <<>> THEN s' = s /\ h' = h ELSE LET o == [op |-> "init", r |-> q, p |-> <<>>] IN s' = Apply(s, o) /\ h' = <<o>>
Going == /\ n > 0 /\ Len(h) < n
         /\ \/ WriteOp \/ ChangeOp \/ CopyOp \/ AddOp \/ AddOp \/ AddOp
            \/ (Chance(40) /\ On1("remove", There)) \/ (Chance(50) /\ On1("intend", There \cap Inside)) \/ On1("forget", Known) \/ On1("rm", Known)
            \/ Mv \/ Mv \/ On1("add", Known) \/ On1("restore", Known) \/ On1("restore", Known)
            \/ (Chance(25) /\ On1("conflict", Known \cup (There \cap Inside))) \/ (Chance(15) /\ On1("flag", Known)) \/ On1("unflag", Known)
            \/ Whole("commit", 100) \/ Whole("commit", 100) \/ Whole("commit", 100) \/ Whole("reset", 30) \/ Whole("hard", 100) \/ Whole("hard", 100)
            \/ Whole("init", 30) \/ Worktree \/ Worktree \/ Worktree \/ Look
Finish == n > 0 /\ Len(h) = n /\ n' = -1 /\ UNCHANGED <<s, h>> /\ PrintT(<<"HISTORY", ToJson(h \o <<[op |-> "look"]>>)>>)
SimSpec == SimInit /\ [][Setup \/ Going \/ Finish]_<<s, h, n>>
=============================================================================
