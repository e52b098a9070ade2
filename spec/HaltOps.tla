------------------------------- MODULE HaltOps -------------------------------
(***************************************************************************)
(* The execution of commands with -x/--exec and --halt, as it is seen from *)
(* outside: commands start, end by themselves or are terminated, the       *)
(* program is at rest, the program exits.  In between it picks up          *)
(* commands, registers failures and stops, which nobody can see; so the    *)
(* judgement follows all states the program may be in.                     *)
(*                                                                         *)
(* A state: [good, bad: how many results whose command can/cannot be       *)
(* started are not picked up yet, picked: picked up, but not started,      *)
(* run: running, seen: were started, unreg: failures that are not          *)
(* registered yet, stop, failed, gone: the program has exited].            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Begin(good, bad) == [good |-> good, bad |-> bad, picked |-> 0, run |-> {}, seen |-> {}, unreg |-> 0, stop |-> FALSE, failed |-> FALSE, gone |-> FALSE]
Busy(s) == s.picked + s.unreg + Cardinality(s.run)

\* what the program does by itself (w: how many commands at a time, halt: never, soon or now)
Inner(w, halt, s) ==
    (IF s.good > 0 /\ ~s.stop /\ ~s.gone /\ Busy(s) < w THEN {[s EXCEPT !.good = @ - 1, !.picked = @ + 1]} ELSE {})
    \cup (IF s.bad > 0 /\ ~s.stop /\ ~s.gone /\ Busy(s) < w THEN {[s EXCEPT !.bad = @ - 1, !.unreg = @ + 1, !.failed = TRUE]} ELSE {})
    \cup (IF s.unreg > 0 THEN {[s EXCEPT !.unreg = @ - 1, !.stop = @ \/ halt # "never"]} ELSE {})
    \* terminated before it was really there
    \cup (IF halt = "now" /\ s.stop /\ s.picked > 0 THEN {[s EXCEPT !.picked = @ - 1, !.unreg = @ + 1, !.failed = TRUE]} ELSE {})
RECURSIVE Closure(_, _, _)
Closure(w, halt, S) == LET T == S \cup UNION {Inner(w, halt, s) : s \in S} IN IF T = S THEN S ELSE Closure(w, halt, T)

Over(s) == s.stop \/ s.good + s.bad = 0
\* nothing will happen unless a command ends
AtRest(halt, s) == /\ s.unreg = 0 /\ s.picked = 0
                   /\ halt = "now" /\ s.stop => s.run = {}
                   /\ s.run = {} => Over(s)
MayExit(halt, s) == ~s.gone /\ s.unreg = 0 /\ Over(s) /\ (halt # "now" => s.run = {} /\ s.picked = 0)
Status(s) == IF s.failed THEN 3 ELSE 0

\* the states after an event [e: kind, c: command, st: status]
Event(halt, s, ev) ==
    CASE ev.e = "start" -> IF s.picked > 0 /\ ev.c \notin s.seen THEN {[s EXCEPT !.picked = @ - 1, !.run = @ \cup {ev.c}, !.seen = @ \cup {ev.c}]} ELSE {}
      [] ev.e = "end"   -> IF ev.c \notin s.run THEN {}
                           ELSE IF ev.st = 0 THEN {[s EXCEPT !.run = @ \ {ev.c}]} ELSE {[s EXCEPT !.run = @ \ {ev.c}, !.unreg = @ + 1, !.failed = TRUE]}
      [] ev.e = "term"  -> IF ev.c \in s.run /\ halt = "now" /\ s.stop THEN {[s EXCEPT !.run = @ \ {ev.c}, !.unreg = IF s.gone THEN @ ELSE @ + 1]} ELSE {}
      [] ev.e = "rest"  -> IF ~s.gone /\ AtRest(halt, s) THEN {s} ELSE {}
      [] ev.e = "exit"  -> IF MayExit(halt, s) /\ ev.st = Status(s) THEN {[s EXCEPT !.gone = TRUE]} ELSE {}
      [] ev.e = "over"  -> IF s.gone /\ s.run = {} THEN {s} ELSE {}
      [] OTHER -> {}
After(w, halt, S, ev) == UNION {Event(halt, s, ev) : s \in Closure(w, halt, S)}
=============================================================================
