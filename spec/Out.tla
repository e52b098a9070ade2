--------------------------------- MODULE Out ---------------------------------
(***************************************************************************)
(* Writing records to a shared output.  Worker processes print records     *)
(* under a lock; a record goes into the process' own buffer and reaches    *)
(* the output in pieces of any size when the buffer is flushed.  A process *)
(* that ends flushes nothing (it is ended together with the main process). *)
(* Wrong variants of the protocol show that the property discriminates:    *)
(*   nolock   records are printed without the lock                         *)
(*   outside  the buffer is flushed after the lock was released            *)
(*   noflush  the buffer is left to itself                                 *)
(*   twice    record and end of line are printed under two separate locks  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Workers, Recs, Len0, Variant      \* records per worker, pieces per record

VARIABLES lockv, wpc, donev, bufv, outv
vars == <<lockv, wpc, donev, bufv, outv>>

\* piece i of record r of worker w
Piece(w, r, i) == <<w, r, i>>
RecPieces(w, r) == [i \in 1..Len0 |-> Piece(w, r, i)]
Free == 0
MayPrint(w) == Variant = "nolock" \/ lockv = w

Init ==
    /\ lockv = Free
    /\ wpc = [w \in Workers |-> "idle"]
    /\ donev = [w \in Workers |-> 0]
    /\ bufv = [w \in Workers |-> << >>]
    /\ outv = << >>

Lock(w) ==
    /\ wpc[w] \in {"idle", "half"}
    /\ wpc[w] = "idle" => donev[w] < Recs
    /\ \/ Variant = "nolock" /\ UNCHANGED lockv
       \/ Variant # "nolock" /\ lockv = Free /\ lockv' = w
    /\ wpc' = [wpc EXCEPT ![w] = IF @ = "half" THEN "locked2" ELSE "locked"]
    /\ UNCHANGED <<donev, bufv, outv>>
Print(w) ==
    /\ wpc[w] \in {"locked", "locked2"}
    /\ LET all == RecPieces(w, donev[w] + 1)
           part == IF Variant # "twice" THEN all ELSE IF wpc[w] = "locked" THEN SubSeq(all, 1, Len0 - 1) ELSE SubSeq(all, Len0, Len0)
       IN bufv' = [bufv EXCEPT ![w] = @ \o part]
    /\ wpc' = [wpc EXCEPT ![w] = IF @ = "locked2" THEN "printed2" ELSE "printed"]
    /\ UNCHANGED <<lockv, donev, outv>>
Unlocked(w) == IF Variant = "nolock" THEN lockv ELSE Free
\* the output takes some of the buffer
Write(w) ==
    /\ wpc[w] \in {"printed", "printed2", "flush"}
    /\ bufv[w] # << >>
    /\ Variant = "noflush" => FALSE
    /\ Variant = "outside" => wpc[w] = "flush"
    /\ \E n \in 1..Len(bufv[w]) :
         /\ outv' = outv \o SubSeq(bufv[w], 1, n)
         /\ bufv' = [bufv EXCEPT ![w] = SubSeq(@, n + 1, Len(@))]
    /\ UNCHANGED <<lockv, wpc, donev>>
Release(w) ==
    /\ wpc[w] \in {"printed", "printed2"}
    /\ Variant \in {"outside", "noflush"} \/ bufv[w] = << >>
    /\ lockv' = Unlocked(w)
    /\ IF Variant = "outside" THEN wpc' = [wpc EXCEPT ![w] = "flush"] /\ UNCHANGED donev
       ELSE IF Variant = "twice" /\ wpc[w] = "printed" THEN wpc' = [wpc EXCEPT ![w] = "half"] /\ UNCHANGED donev
       ELSE wpc' = [wpc EXCEPT ![w] = "idle"] /\ donev' = [donev EXCEPT ![w] = @ + 1]
    /\ UNCHANGED <<bufv, outv>>
Flushed(w) ==
    /\ wpc[w] = "flush"
    /\ bufv[w] = << >>
    /\ wpc' = [wpc EXCEPT ![w] = "idle"]
    /\ donev' = [donev EXCEPT ![w] = @ + 1]
    /\ UNCHANGED <<lockv, bufv, outv>>
Next == \E w \in Workers : Lock(w) \/ Print(w) \/ Write(w) \/ Release(w) \/ Flushed(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Lock(w) \/ Print(w) \/ Write(w) \/ Release(w) \/ Flushed(w)) /\ SF_vars(Lock(w))

AllDone == \A w \in Workers : donev[w] = Recs
\* the output consists of whole records, apart from the one that is being written
Whole(o) == \A k \in 1..Len(o) :
    LET p == o[k] IN IF p[3] = 1 THEN k = 1 \/ o[k - 1][3] = Len0 ELSE k > 1 /\ o[k - 1] = <<p[1], p[2], p[3] - 1>>
RecordsWhole == Whole(outv)
NothingLost == AllDone => Len(outv) = Cardinality(Workers) * Recs * Len0
Once == \A i, j \in 1..Len(outv) : outv[i] = outv[j] => i = j
Ends == <>AllDone
=============================================================================
