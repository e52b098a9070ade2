------------------------------- MODULE HaltSim -------------------------------
(* Random behaviours of Halt; what the environment does in them is replayed: which running command ends how, and *)
(* when it waits until the program does nothing any more.                                                      *)
EXTENDS Halt, TLC, Json, Randomization
VARIABLES h, ord, cfg
Pick(S) == RandomElement(S)
Chance(k) == Pick(1..100) <= k
SimInit == /\ todo = {} /\ wk = [w \in Workers |-> Idle] /\ ended = [c \in {} |-> ""] /\ killed = {} /\ stop = FALSE /\ status = 0 /\ exited = FALSE
           /\ atstop = {} /\ started = {} /\ h = <<>> /\ ord = <<>> /\ cfg = [w |-> 0, good |-> 0, bad |-> 0, pf |-> 0]
Setup == /\ cfg.w = 0
         /\ \E nw \in {Pick(1..Cardinality(Workers))}, n \in {Pick(2..Cardinality(Cmds))} : \E ws \in {RandomSubset(nw, Workers)}, cs \in {IF Chance(35) THEN RandomSubset(n, Cmds) ELSE RandomSubset(n, Cmds) \ Bad} :
              /\ todo' = cs /\ wk' = [w \in Workers |-> IF w \in ws THEN Idle ELSE [s |-> "over", c |-> <<>>]]
              /\ cfg' = [w |-> nw, good |-> Cardinality(cs \ Bad), bad |-> Cardinality(cs \cap Bad), pf |-> Pick({0, 15, 30, 60})]
         /\ UNCHANGED <<ended, killed, stop, status, exited, atstop, started, h, ord>>
Order(old) == SelectSeq(old, LAMBDA c : c \in RunningCmds') \o LET new == RunningCmds' \ {old[i] : i \in DOMAIN old} IN
              IF new = {} THEN <<>> ELSE <<CHOOSE c \in new : TRUE>>
Pos(c) == CHOOSE i \in DOMAIN ord : ord[i] = c
SimEnd == \E w \in Workers : wk[w].s = "running" /\ \E how \in {IF Chance(cfg.pf) THEN "fail" ELSE "ok"} : End(w, how) /\ h' = Append(h, [do |-> how, k |-> Pos(wk[w].c[1])])
Waits == h # <<>> /\ h[Len(h)].do = "rest"
Going == /\ cfg.w > 0 /\ ~exited
         /\ \/ Own /\ h' = h
            \/ SimEnd
            \/ ~Waits /\ Chance(40) /\ h' = Append(h, [do |-> "rest", k |-> 0]) /\ UNCHANGED vars
         /\ ord' = Order(ord) /\ UNCHANGED cfg
         /\ (exited' => PrintT(<<"HISTORY", ToJson([cfg |-> cfg, steps |-> h'])>>))
SimNext == Setup \/ Going
SimSpec == SimInit /\ [][SimNext]_<<vars, h, ord, cfg>>
=============================================================================
