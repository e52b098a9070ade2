-------------------------------- MODULE Par --------------------------------
(* The search protocol: worker processes share a queue of work (chunks of directories, and single commands with -x), their
   results go to the main process (collected output) or are written by the workers themselves (immediate output).  A message
   put in a queue lies in a buffer of the sending process until a background thread of that process hands it over, so the
   queue may look empty although a message is on its way.  Processes may be killed or fail at any moment.

   The guarantees: no result is reported twice; a search that ends successfully has reported every result; the search ends.

   Proto selects the rules by which processes decide that there is nothing left to do:
     "count"    the rule that is required: chunks that are not processed yet, and results that did not arrive yet, are counted
   and wrong ones, each of which must violate a guarantee (so that the guarantees are known not to be vacuous):
     "barrier"  everybody is idle and the queue looks empty
     "early"    a chunk counts as processed as soon as it was taken out of the queue
     "late"     a chunk is counted only after it has arrived in the queue
     "noundel"  the main process does not wait for results that are still on their way
     "nocheck"  the main process never looks whether the workers are alive
     "nostop"   a failing worker does not tell the others to stop
     "lock"     waiting involves a lock, which a worker that is killed leaves behind
     "orphan"   workers do not notice that the main process was killed
     "nocode"   a failing worker does not leave an exit status *)
EXTENDS Naturals, Sequences, FiniteSets, Bags, TLC

CONSTANTS Workers,      \* the worker processes
          Dirs,         \* directories
          Sub,          \* directory -> sequence of its sub-directories
          Root,
          Mode,         \* "collect", "immediate" or "exec"
          Chunk,        \* number of directories per chunk
          Proto,
          Faults        \* number of faults that may happen

Main == 0
Procs == Workers \cup {Main}
Dir(ds) == [k |-> "dirs", ds |-> ds]
Cmd(d) == [k |-> "cmd", ds |-> <<d>>]
Results == Dirs \ {Root}
NoItem == [k |-> "none", ds |-> <<>>]

VARIABLES buf,      \* process -> messages for the work queue that are not handed over yet
          wq,       \* the work queue
          obuf, oq, \* the same for results
          pending,  \* number of work messages that are not processed completely
          undel,    \* number of result messages that did not arrive yet
          pc, cur, todo,
          mpc, waiting, stop, code, got, faults

vars == <<buf, wq, obuf, oq, pending, undel, pc, cur, todo, mpc, waiting, stop, code, got, faults>>

Init == /\ buf = [p \in Procs |-> IF p = Main THEN <<Dir(<<Root>>)>> ELSE <<>>]
        /\ wq = <<>>
        /\ obuf = [p \in Workers |-> <<>>]
        /\ oq = <<>>
        /\ pending = IF Proto = "late" THEN 0 ELSE 1
        /\ undel = 0
        /\ pc = [w \in Workers |-> "idle"]
        /\ cur = [w \in Workers |-> NoItem]
        /\ todo = [w \in Workers |-> <<>>]
        /\ mpc = "get"
        /\ waiting = {}
        /\ stop = FALSE
        /\ code = 0
        /\ got = EmptyBag
        /\ faults = 0

Alive(w) == pc[w] \notin {"dead", "done"}
\* the background threads
Feed(p) == /\ buf[p] # <<>>
           /\ wq' = Append(wq, Head(buf[p]))
           /\ buf' = [buf EXCEPT ![p] = Tail(@)]
           /\ pending' = IF Proto = "late" THEN pending + 1 ELSE pending
           /\ UNCHANGED <<obuf, oq, undel, pc, cur, todo, mpc, waiting, stop, code, got, faults>>
OFeed(w) == /\ obuf[w] # <<>>
            /\ oq' = Append(oq, Head(obuf[w]))
            /\ obuf' = [obuf EXCEPT ![w] = Tail(@)]
            /\ UNCHANGED <<buf, wq, pending, undel, pc, cur, todo, mpc, waiting, stop, code, got, faults>>

Release == IF Proto = "late" \/ Proto = "early" THEN 1 ELSE 0
\* a worker takes a message
Get(w) == /\ pc[w] = "idle" /\ ~stop /\ wq # <<>>
          /\ cur' = [cur EXCEPT ![w] = Head(wq)]
          /\ wq' = Tail(wq)
          /\ pc' = [pc EXCEPT ![w] = "work"]
          /\ pending' = pending - Release
          /\ UNCHANGED <<buf, obuf, oq, undel, todo, mpc, waiting, stop, code, got, faults>>
\* a worker notices that it has to stop
Halt(w) == /\ pc[w] = "idle" /\ stop
           /\ pc' = [pc EXCEPT ![w] = "done"]
           /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, cur, todo, mpc, waiting, stop, code, got, faults>>
\* nothing arrived in time
Empty(w) == /\ pc[w] = "idle" /\ ~stop /\ wq = <<>>
            /\ pc' = [pc EXCEPT ![w] = "wait"]
            /\ waiting' = waiting \cup {w}
            /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, cur, todo, mpc, stop, code, got, faults>>
Finished == IF Proto = "barrier" THEN FALSE ELSE stop \/ pending = 0
\* everybody is waiting
Stuck == Proto = "lock" /\ \E w \in waiting : w # Main /\ pc[w] = "dead"
Meet == /\ waiting = Procs /\ ~Stuck
        /\ waiting' = {}
        /\ pc' = [w \in Workers |-> IF pc[w] # "wait" THEN pc[w] ELSE IF Proto = "barrier" \/ Finished THEN "done" ELSE "idle"]
        /\ mpc' = IF mpc # "wait" THEN mpc ELSE IF Proto = "barrier" \/ Finished THEN "deliver" ELSE "check"
        /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, cur, todo, stop, code, got, faults>>
\* waiting took too long
Break(p) == /\ p \in waiting /\ (waiting # Procs \/ Proto # "barrier") /\ ~Stuck
            /\ waiting' = waiting \ {p}
            /\ IF p = Main
               THEN mpc' = (IF Finished THEN "deliver" ELSE "check") /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![p] = IF Finished THEN "done" ELSE "idle"] /\ UNCHANGED mpc
            /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, cur, todo, stop, code, got, faults>>

RECURSIVE Chunks(_)
Chunks(s) == IF s = <<>> THEN <<>>
             ELSE IF Len(s) <= Chunk THEN <<Dir(s)>>
             ELSE <<Dir(SubSeq(s, 1, Chunk))>> \o Chunks(SubSeq(s, Chunk + 1, Len(s)))
\* read one directory: its sub-directories are further work, its entries are results
Scan(w) == /\ pc[w] = "work" /\ todo[w] = <<>> /\ cur[w].k = "dirs" /\ cur[w].ds # <<>>
           /\ LET d == Head(cur[w].ds)
                  subs == Sub[d]
              IN todo' = [todo EXCEPT ![w] = [n \in 1..Len(Chunks(subs)) |-> [k |-> "put", m |-> Chunks(subs)[n]]] \o
                     (IF subs = <<>> THEN <<>> ELSE IF Mode = "exec"
                      THEN [n \in 1..Len(subs) |-> [k |-> "put", m |-> Cmd(subs[n])]] ELSE <<[k |-> "result", m |-> Dir(subs)]>>)]
           /\ cur' = [cur EXCEPT ![w].ds = Tail(@)]
           /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, mpc, waiting, stop, code, got, faults>>
Note(s) == [r \in {s[n] : n \in 1..Len(s)} |-> Cardinality({n \in 1..Len(s) : s[n] = r})]
Put(w) == /\ pc[w] = "work" /\ todo[w] # <<>>
          /\ LET t == Head(todo[w]) IN
             IF t.k = "put"
             THEN /\ buf' = [buf EXCEPT ![w] = Append(@, t.m)]
                  /\ pending' = IF Proto = "late" THEN pending ELSE pending + 1
                  /\ UNCHANGED <<obuf, undel, got>>
             ELSE IF Mode = "collect"
             THEN /\ obuf' = [obuf EXCEPT ![w] = Append(@, t.m)]
                  /\ undel' = undel + 1
                  /\ UNCHANGED <<buf, pending, got>>
             ELSE /\ got' = got (+) Note(t.m.ds)
                  /\ UNCHANGED <<buf, obuf, pending, undel>>
          /\ todo' = [todo EXCEPT ![w] = Tail(@)]
          /\ UNCHANGED <<wq, oq, pc, cur, mpc, waiting, stop, code, faults>>
Run(w) == /\ pc[w] = "work" /\ todo[w] = <<>> /\ cur[w].k = "cmd" /\ cur[w].ds # <<>>
          /\ got' = got (+) Note(cur[w].ds)
          /\ cur' = [cur EXCEPT ![w].ds = <<>>]
          /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, todo, mpc, waiting, stop, code, faults>>
Finish(w) == /\ pc[w] = "work" /\ todo[w] = <<>> /\ cur[w].ds = <<>>
             /\ cur' = [cur EXCEPT ![w] = NoItem]
             /\ pc' = [pc EXCEPT ![w] = "idle"]
             /\ pending' = pending - (1 - Release)
             /\ UNCHANGED <<buf, wq, obuf, oq, undel, todo, mpc, waiting, stop, code, got, faults>>

\* a worker meets an unexpected error; what it has not handed over is dropped
Fail(w) == /\ faults < Faults /\ pc[w] = "work"
           /\ faults' = faults + 1
           /\ pc' = [pc EXCEPT ![w] = "done"]
           /\ code' = IF Proto = "nocode" THEN code ELSE 4
           /\ stop' = IF Proto = "nostop" THEN stop ELSE TRUE
           /\ \E n \in 0..Len(buf[w]) : buf' = [buf EXCEPT ![w] = SubSeq(@, 1, n)]
           /\ \E n \in 0..Len(obuf[w]) : obuf' = [obuf EXCEPT ![w] = SubSeq(@, 1, n)]
           /\ UNCHANGED <<wq, oq, pending, undel, cur, todo, mpc, waiting, got>>
\* a worker is killed
Kill(w) == /\ faults < Faults /\ pc[w] # "dead"
           /\ pc[w] = "done" => buf[w] # <<>> \/ obuf[w] # <<>>
           /\ faults' = faults + 1
           /\ pc' = [pc EXCEPT ![w] = "dead"]
           /\ buf' = [buf EXCEPT ![w] = <<>>]
           /\ obuf' = [obuf EXCEPT ![w] = <<>>]
           /\ waiting' = IF Proto = "lock" THEN waiting ELSE waiting \ {w}
           /\ UNCHANGED <<wq, oq, pending, undel, cur, todo, mpc, stop, code, got>>

\* the main process is killed, and the workers with it
MKill == /\ faults < Faults /\ mpc \notin {"end", "dead"}
         /\ faults' = faults + 1
         /\ mpc' = "dead"
         /\ buf' = [buf EXCEPT ![Main] = <<>>]
         /\ waiting' = waiting \ {Main}
         /\ UNCHANGED <<wq, obuf, oq, pending, undel, pc, cur, todo, stop, code, got>>
Follow(w) == /\ mpc = "dead" /\ pc[w] # "dead" /\ Proto # "orphan"
             /\ pc' = [pc EXCEPT ![w] = "dead"]
             /\ buf' = [buf EXCEPT ![w] = <<>>]
             /\ obuf' = [obuf EXCEPT ![w] = <<>>]
             /\ waiting' = waiting \ {w}
             /\ UNCHANGED <<wq, oq, pending, undel, cur, todo, mpc, stop, code, got, faults>>

\* the main process
MGet == /\ mpc = "get" /\ oq # <<>>
        /\ got' = got (+) Note(Head(oq).ds)
        /\ oq' = Tail(oq)
        /\ undel' = undel - 1
        /\ UNCHANGED <<buf, wq, obuf, pending, pc, cur, todo, mpc, waiting, stop, code, faults>>
MEmpty == /\ mpc = "get" /\ oq = <<>>
          /\ IF Proto # "barrier" /\ pending = 0
             THEN mpc' = "deliver" /\ UNCHANGED waiting
             ELSE mpc' = "wait" /\ waiting' = waiting \cup {Main}
          /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, cur, todo, stop, code, got, faults>>
Dead == \E w \in Workers : pc[w] = "dead" \/ (pc[w] = "done" /\ pending > 0)
MCheck(from, then) ==
    /\ mpc = from
    /\ IF Proto # "nocheck" /\ ~stop /\ Dead
       THEN code' = 4 /\ stop' = TRUE /\ mpc' = then
       ELSE mpc' = "get" /\ UNCHANGED <<code, stop>>
    /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, cur, todo, waiting, got, faults>>
MDeliver == /\ mpc = "deliver"
            /\ mpc' = IF Mode # "collect" \/ Proto \in {"noundel", "barrier"} \/ undel = 0 \/ stop THEN "join" ELSE "check2"
            /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, cur, todo, waiting, stop, code, got, faults>>
\* the main process waits for the workers, whose background threads have to hand over everything unless everybody stops
MJoin == /\ mpc = "join"
         /\ \A w \in Workers : pc[w] = "dead" \/ (pc[w] = "done" /\ (stop \/ (buf[w] = <<>> /\ obuf[w] = <<>>)))
         /\ mpc' = "end"
         /\ UNCHANGED <<buf, wq, obuf, oq, pending, undel, pc, cur, todo, waiting, stop, code, got, faults>>

Step(w) == OFeed(w) \/ Get(w) \/ Halt(w) \/ Empty(w) \/ Scan(w) \/ Put(w) \/ Run(w) \/ Finish(w)
MStep == MGet \/ MEmpty \/ MCheck("check", "deliver") \/ MCheck("check2", "join") \/ MDeliver \/ MJoin
Next == \/ \E p \in Procs : Feed(p) \/ Break(p)
        \/ \E w \in Workers : Step(w) \/ Fail(w) \/ Kill(w) \/ Follow(w)
        \/ Meet \/ MStep \/ MKill

\* time-outs and steps of the processes happen eventually; faults need not happen
Fair == /\ \A p \in Procs : WF_vars(Feed(p)) /\ WF_vars(Break(p))
        /\ \A w \in Workers : WF_vars(OFeed(w)) /\ WF_vars(Follow(w)) /\ SF_vars(Get(w)) /\ WF_vars(Halt(w)) /\ WF_vars(Empty(w)) /\ WF_vars(Scan(w) \/ Put(w) \/ Run(w) \/ Finish(w))
        /\ WF_vars(Meet) /\ SF_vars(MGet) /\ WF_vars(MEmpty) /\ WF_vars(MCheck("check", "deliver")) /\ WF_vars(MCheck("check2", "join")) /\ WF_vars(MDeliver) /\ WF_vars(MJoin)
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
Complete == \A r \in Results : CopiesIn(r, got) = 1
Once == \A r \in DOMAIN got : r \in Results /\ got[r] = 1
Whole == mpc = "end" /\ code = 0 => Complete
Honest == code = 4 => faults > 0
Clean == mpc = "end" => \A w \in Workers : pc[w] \in {"done", "dead"}
Safe == Once /\ Whole /\ Honest /\ Clean
\* the search ends, and nothing is left of it even if the main process is killed
Ends == <>(mpc = "end" \/ (mpc = "dead" /\ \A w \in Workers : pc[w] \in {"done", "dead"}))
=============================================================================
