------------------------------ MODULE HaltJudge ------------------------------
(* Judges recorded executions of commands with --halt. *)
EXTENDS HaltOps, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
Why(ev, r) == CASE ev.e = "start" -> "a command was started that must not be started"
                [] ev.e = "end" -> "a command ended that was not running"
                [] ev.e = "term" -> "a command was terminated that must not be terminated"
                [] ev.e = "rest" -> "the program rests although there is something to do"
                [] ev.e = "exit" -> "exit or exit status " \o ToString(ev.st)
                [] ev.e = "over" -> "a command was left behind"
                [] OTHER -> "unexpected event"
RECURSIVE Go(_, _, _)
Go(r, i, S) == IF i > Len(r.ev) THEN ""
               ELSE LET T == TLCEval(After(r.jobs, r.halt, S, r.ev[i])) IN
                    IF T = {} THEN Why(r.ev[i], r) \o " (event " \o ToString(i) \o ")" ELSE Go(r, i + 1, T)
VARIABLE k
Verdict == LET r == Recs[k] bad == Go(r, 1, {Begin(r.good, r.bad)}) IN bad = "" \/ PrintT("BAD " \o ToString(r.id) \o " " \o ToString({bad}))
JInit == k \in DOMAIN Recs
JNext == FALSE /\ UNCHANGED k
JSpec == JInit /\ [][JNext]_k
=============================================================================
