------------------------------- MODULE ParSim -------------------------------
(* Behaviours of Par for replay: the order of the events that the harness can hold up in the real program. *)
EXTENDS ParMC, Json
VARIABLE h
Ev(p, s) == h' = Append(h, <<p, s>>)
SimInit == Init /\ h = <<>>
SimNext == \/ \E p \in Procs : Feed(p) /\ Ev(p, "feed")
           \/ \E w \in Workers : \/ OFeed(w) /\ Ev(w, "feed")
                                 \/ Get(w) /\ Ev(w, "get")
                                 \/ Scan(w) /\ Ev(w, "scan")
                                 \/ (Halt(w) \/ Empty(w) \/ Put(w) \/ Run(w) \/ Finish(w)) /\ UNCHANGED h
           \/ MGet /\ Ev(Main, "get")
           \/ (Meet \/ MEmpty \/ MCheck("check", "deliver") \/ MCheck("check2", "join") \/ MDeliver \/ (\E p \in Procs : Break(p))) /\ UNCHANGED h
           \/ MJoin /\ UNCHANGED h /\ PrintT(<<"BEHAVIOUR", ToJson(h)>>)
SimSpec == SimInit /\ [][mpc # "end" /\ SimNext]_<<vars, h>>
=============================================================================
