------------------------------ MODULE GitJudge ------------------------------
(* Judges recorded histories of repositories: rec.ops with what was seen at each look. *)
EXTENDS GitOps, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
SetOf(x) == {x[i] : i \in DOMAIN x}
RECURSIVE Str(_)
Str(p) == IF p = <<>> THEN "" ELSE "/" \o p[1] \o Str(Tail(p))
\* seen: the entries below start [p, t, a: attributes as shown (<<>>: none)]
Look(s, o) ==
    LET all == SetOf(o.seen)
        \* entries below a directory outside of all repositories that git cannot use (o.odd): whatever is shown for them, they are entries like others
        seen == {e \in all : e.t # "odd"} IN
    (IF o.ok THEN {} ELSE {"exit status or output"})
    \cup {"missing " \o Str(p) : p \in {p \in F(s) : s.wt[p] # None /\ Under(o.start, p) /\ o.sel = "" /\ ~\E e \in seen : e.p = p /\ e.t = "other"}}
    \cup {"missing " \o Str(p) : p \in {p \in SetOf(o.odd) : Under(o.start, p) /\ o.sel = "" /\ ~\E e \in all : e.p = p}}
    \cup {"attributes of " \o Str(e.p) : e \in {e \in seen : e.a \notin Attrs(s, e)}}
    \* results of a test: sel names the attribute, val the value
    \cup (IF o.sel = "" THEN {}
          ELSE LET Is(a) == a # <<>> /\ a[IF o.sel = "tracked" THEN 1 ELSE IF o.sel = "dirty" THEN 2 ELSE 4] = o.val IN
               {"result " \o Str(e.p) : e \in {e \in seen : ~\E a \in Attrs(s, e) : Is(a)}}
               \cup {"missing result " \o Str(e.p) : e \in {e \in SetOf(o.all) : (~\E f \in seen : f.p = e.p /\ f.t = e.t) /\ \A a \in Attrs(s, e) : Is(a)}})
RECURSIVE Fold(_, _, _)
Fold(ops, i, s) ==
    IF i > Len(ops) THEN {}
    ELSE IF ops[i].op = "look"
         THEN LET bad == TLCEval(Look(s, ops[i])) IN IF bad # {} THEN {b \o " at " \o ToString(i) : b \in bad} ELSE Fold(ops, i + 1, s)
         ELSE IF ~Ok(s, ops[i]) THEN {"MACHINERY: not possible at " \o ToString(i)} ELSE Fold(ops, i + 1, TLCEval(Apply(s, ops[i])))
VARIABLE k
Verdict == LET r == Recs[k]
               P == SetOf(r.paths)
               bad == Fold(r.ops, 1, [wt |-> Empty(P), repos |-> [q \in SetOf(r.repos) |-> NoRepo(P)]])
           IN bad = {} \/ PrintT("BAD " \o ToString(r.id) \o " " \o ToString(bad))
JInit == k \in DOMAIN Recs
JNext == FALSE /\ UNCHANGED k
JSpec == JInit /\ [][JNext]_k
=============================================================================
