-------------------------------- MODULE Halt --------------------------------
(***************************************************************************)
(* Workers that execute one command per result, and --halt.  A worker      *)
(* looks at the stop flag, picks up a command, starts it and waits for it  *)
(* (with "now" it looks at the stop flag meanwhile); if the command failed *)
(* it records that and raises the stop flag (not with "never").            *)
(* The environment decides when and how commands end.                      *)
(*                                                                         *)
(* Variants: "ok"; wrong ones: "nocheck" (the flag is not looked at before *)
(* a command is picked up), "ahead" (two commands are picked up at a       *)
(* time), "neverstops", "soonkills", "nowwaits" (running commands are not  *)
(* terminated), "early" (exits while commands run), "alwaysstops" (stops   *)
(* with "never", too), "nostatus" (a terminated or later successful        *)
(* command resets the status).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Workers, Cmds, Bad, Mode, Variant
VARIABLES todo, wk, ended, killed, stop, status, exited, atstop, started
vars == <<todo, wk, ended, killed, stop, status, exited, atstop, started>>
\* wk: worker -> [s: "idle", "picked", "running", "failed" or "over", c: sequence of commands]
Idle == [s |-> "idle", c |-> <<>>]
Failing == {"fail"} \* how commands end: "ok" or "fail"
RunningCmds == {wk[w].c[1] : w \in {v \in Workers : wk[v].s = "running"}}
PickedCmds == UNION {{wk[w].c[i] : i \in DOMAIN wk[w].c} : w \in {v \in Workers : wk[v].s \in {"picked", "running"}}}
Ended(how) == {c \in DOMAIN ended : ended[c] = how}
Init == /\ todo = Cmds /\ wk = [w \in Workers |-> Idle] /\ ended = [c \in {} |-> ""] /\ killed = {} /\ stop = FALSE /\ status = 0 /\ exited = FALSE
        /\ atstop = {} /\ started = {}
Leave(w) == /\ ~exited /\ wk[w].s = "idle" /\ (todo = {} \/ (stop /\ Variant # "nocheck")) /\ wk' = [wk EXCEPT ![w].s = "over"]
            /\ UNCHANGED <<todo, ended, killed, stop, status, exited, atstop, started>>
PickUp(w) == /\ ~exited /\ wk[w].s = "idle" /\ todo # {} /\ (~stop \/ Variant = "nocheck")
             /\ \E c \in todo : \E d \in IF Variant = "ahead" THEN todo ELSE {c} :
                   /\ wk' = [wk EXCEPT ![w] = [s |-> "picked", c |-> IF d = c THEN <<c>> ELSE <<c, d>>]] /\ todo' = todo \ {c, d}
             /\ UNCHANGED <<ended, killed, stop, status, exited, atstop, started>>
Start(w) == /\ ~exited /\ wk[w].s = "picked"
            /\ IF wk[w].c[1] \in Bad THEN wk' = [wk EXCEPT ![w].s = "failed"] /\ UNCHANGED <<killed, started>>
               ELSE wk' = [wk EXCEPT ![w].s = "running"] /\ started' = started \cup {wk[w].c[1]} /\ UNCHANGED killed
            /\ UNCHANGED <<todo, ended, stop, status, exited, atstop>>
\* what happens next in this worker
Next1(w) == IF Len(wk[w].c) > 1 THEN [s |-> "picked", c |-> Tail(wk[w].c)] ELSE Idle
End(w, how) == /\ wk[w].s = "running" /\ ~exited
               /\ ended' = [c \in DOMAIN ended \cup {wk[w].c[1]} |-> IF c = wk[w].c[1] THEN how ELSE ended[c]]
               /\ wk' = [wk EXCEPT ![w] = IF how = "ok" THEN Next1(w) ELSE [@ EXCEPT !.s = "failed"]]
               /\ status' = IF how = "ok" /\ Variant = "nostatus" THEN 0 ELSE status
               /\ UNCHANGED <<todo, killed, stop, exited, atstop, started>>
Kills == (Mode = "now" /\ Variant # "nowwaits") \/ (Mode = "soon" /\ Variant = "soonkills")
Kill(w) == /\ wk[w].s = "running" /\ ~exited /\ stop /\ Kills
           /\ killed' = killed \cup {wk[w].c[1]} /\ wk' = [wk EXCEPT ![w].s = "failed"]
           /\ UNCHANGED <<todo, ended, stop, status, exited, atstop, started>>
Register(w) == /\ wk[w].s = "failed" /\ ~exited
               /\ status' = 3 /\ wk' = [wk EXCEPT ![w] = Next1(w)]
               /\ stop' = (stop \/ (Variant # "neverstops" /\ (Mode # "never" \/ Variant = "alwaysstops")))
               /\ atstop' = IF stop' /\ ~stop THEN PickedCmds ELSE atstop
               /\ UNCHANGED <<todo, ended, killed, exited, started>>
Exit == /\ ~exited /\ \A w \in Workers : wk[w].s = "over" \/ (Variant = "early" /\ stop /\ wk[w].s = "running")
        /\ exited' = TRUE /\ UNCHANGED <<todo, wk, ended, killed, stop, status, atstop, started>>
Done == exited /\ UNCHANGED vars
Own == Exit \/ \E w \in Workers : Leave(w) \/ PickUp(w) \/ Start(w) \/ Kill(w) \/ Register(w)
Env == \E w \in Workers : End(w, "ok") \/ End(w, "fail")
Next == Own \/ Env \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Own) /\ \A w \in Workers : WF_vars(End(w, "ok"))
\* commands may run forever
Forever == Init /\ [][Next]_vars /\ WF_vars(Own)

Failed == Ended("fail") # {} \/ killed # {} \/ \E c \in Bad : c \notin todo /\ \A w \in Workers : \A i \in DOMAIN wk[w].c : wk[w].c[i] # c
\* once it is decided to stop only what was picked up before that is still started
NoFurther == [][stop => \A c \in started' \ started : c \in atstop]_vars
OnlyOne == \A w \in Workers : Len(wk[w].c) <= 1
NotStopped == Mode = "never" => ~stop
Stops == Mode # "never" /\ status = 3 => stop
NotKilled == Mode # "now" => killed = {}
AllRun == exited /\ Mode = "never" => todo = {} /\ \A c \in Cmds \ Bad : c \in DOMAIN ended
AllEnded == exited => RunningCmds = {}
RightStatus == exited => status = IF Failed THEN 3 ELSE 0
Terminates == <>exited
\* with "now" a failure is enough
NowEnds == Mode = "now" => ((Ended("fail") # {}) ~> exited)
=============================================================================
