-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Checks records of executions of the real program: for each record the   *)
(* specification says what the search means, and the observation has to    *)
(* conform to it.  One step per record; the records that do not conform    *)
(* are printed together with the violated clauses.                         *)
(***************************************************************************)
EXTENDS Search, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)

\* options of an API search
ApiOptions(q) ==
    [Default EXCEPT !.tests = q.tests, !.dirs = q.dirs, !.exclude = q.exclude, !.output = q.output,
       !.sort = IF q.sort = << >> THEN None ELSE Some(q.sort), !.reverse = q.reverse, !.hide = q.hide, !.ignore = q.ignore,
       !.igfiles = IF q.igfiles = << >> THEN Default.igfiles ELSE {q.igfiles[i] : i \in DOMAIN q.igfiles},
       !.limit = IF q.stop = 0 THEN None ELSE Some(<<0, Some(q.stop)>>), !.onefs = q.onefs, !.case = q.case, !.si = q.si, !.follow = q.follow, !.abs = q.abs, !.jobs = q.jobs]
ObsRecord(r) == {<<r[i][1], JsonOf(r[i][2])>> : i \in DOMAIN r}
ObsRecords(rs) == Tup([i \in DOMAIN rs |-> ObsRecord(rs[i])])

If(c, name) == IF c THEN {} ELSE {name}
Jobs(O) == IF O.jobs = 0 THEN MaxCpu ELSE O.jobs
\* the violated clauses
JudgeErrors(rec, errs) ==
    LET o == rec.obs IN
    IF rec.kind = "api"
    THEN If(o.exc # "", "no error raised") \cup If(o.recs = << >>, "entries were yielded before the error")
    ELSE If(o.st \in errs, "exit status") \cup If(o.errn > 0, "no error message")
         \cup If(o.pieces = << >> /\ o.tail = << >> /\ o.cmds = << >>, "a search was made in spite of wrong usage")
\* colours only add escape sequences ESC [ ... m
ESC == 27
RECURSIVE Plain(_)
Plain(t) == IF ~Has(t, ESC) THEN t
            ELSE LET p == FirstPos(t, ESC)
                     rest == Drop(t, p - 1)
                     e == FirstPos(rest, 109) IN
                 IF Len(rest) < 3 \/ rest[2] # LBRACK \/ e = 0 THEN t ELSE Take(t, p - 1) \o Plain(Drop(rest, e))
\* characters that cannot be written are shown as escape sequences
HexChar(n) == T("0123456789abcdef")[n + 1]
RECURSIVE Escaped(_)
Escaped(t) ==
    LET P == {i \in DOMAIN t : t[i] >= 55296 /\ t[i] <= 57343} IN
    IF P = {} THEN t
    ELSE LET k == Min(P) c == t[k] IN
         Take(t, k - 1) \o <<92, 117, HexChar(c \div 4096), HexChar((c \div 256) % 16), HexChar((c \div 16) % 16), HexChar(c % 16)>> \o Escaped(Drop(t, k))
JudgeConsole(W, O, X, o0, groups, strict) ==
    LET o == IF O.color = "always" THEN [o0 EXCEPT !.pieces = Tup([i \in DOMAIN o0.pieces |-> Plain(o0.pieces[i])])] ELSE o0
        R0(e) == Record(W, O, X.out, e)
        R(e) == LET r == R0(e) IN IF strict /\ r # None THEN Some(Escaped(r[1])) ELSE r
        G == TLCEval(Render(groups, R))
    IN IF Unclear(W, O, X.out, AllItems(groups)) THEN {}
       ELSE IF O.json # ""
       THEN LET J == TLCEval(Tup([i \in DOMAIN groups |-> [l |-> Tup([k \in DOMAIN groups[i].l |-> JsonRecord(W, O, X.out, groups[i].l[k])]),
                                                       take |-> groups[i].take]]))
            IN If(o.jok, "malformed JSON") \cup If(~o.jok \/ Consume(J, ObsRecords(o.json), 1), "JSON records")
       ELSE If(o.tail = << >>, "unfinished record")
            \cup (IF ~Clear(groups, R) \/ ~NoNewlines(G, O.newline) THEN {}
                  ELSE If(Consume(Pieces(G, O.newline), o.pieces, 1), "console records"))
JudgeCount(W, O, X, o, es) ==
    LET facts == CountFacts(W, O, X.count, es) IN
    IF UnclearSum(W, O, X.count, es) THEN {}
    ELSE IF O.json # ""
    THEN If(o.jok, "malformed JSON")
         \cup If(~o.jok \/ {<<o.cnt[i][1], o.cnt[i][2], JsonOf(o.cnt[i][3])>> : i \in DOMAIN o.cnt}
                            = {<<x[2], x[3], x[4]>> : x \in facts}, "statistics")
    ELSE LET L == SetToSeq({CountLine(x) : x \in facts})
             P == FlattenSeq(Tup([i \in DOMAIN L |-> SplitOn(L[i], NL)]))
         IN If(o.tail = << >>, "unfinished record") \cup If(SameBag(o.pieces, P), "statistics")
\* commands: [a: arguments, s: start, e: end] in start order
Recorded(cmds, rec) == Tup([i \in DOMAIN cmds |-> cmds[i].a])
JudgeExec(W, O, X, o, groups, rec, plain) ==
    LET R(e) == Command(W, O, X.exec, e)
        G == TLCEval(Render(groups, R))
        obs == Tup([i \in DOMAIN o.cmds |-> o.cmds[i].a])
        \* (an argument with a NUL character cannot be passed to a command)
        runs(a) == a[1] = rec.rec /\ \A i \in DOMAIN a : ~Has(a[i], 0)
        want == AllItems(G)
        known == \A i \in DOMAIN want : runs(want[i])
        failed == Cardinality({i \in DOMAIN obs : CmdFails(obs[i])})
        lost == Taken(G) - Len(obs)
        bad == IF known THEN failed ELSE failed + Cardinality({i \in DOMAIN want : ~runs(want[i])})
    IN IF ~Clear(groups, R) \/ Unclear(W, O, PlacesOf(X.exec), AllItems(groups)) THEN {}
       ELSE (IF known THEN If(AnyOrder(G, obs), "executed commands")
             ELSE If(SameBag(obs, SelectSeq(want, runs)), "executed commands"))
            \cup If(o.st = (IF bad > 0 THEN 3 ELSE plain), "exit status")
            \cup (IF o.st = 3 /\ bad > 0 THEN If(o.succ = Len(obs) - failed /\ o.failed = bad, "success and failure totals") ELSE {})
            \cup If(\A i \in DOMAIN o.cmds : Cardinality({k \in DOMAIN o.cmds : o.cmds[k].s <= o.cmds[i].s /\ o.cmds[i].s < o.cmds[k].e}) <= Jobs(O),
                    "too many commands at the same time")
JudgeBatch(W, O, X, o, groups, rec, plain) ==
    LET tp == X.batch
        places == {i \in DOMAIN tp : HasPlace(tp[i])}
        p == Min(places)
        lit(i) == FlattenSeq(Tup([j \in DOMAIN tp[i] |-> tp[i][j].t]))
        head == Tup([i \in 1..(p - 1) |-> lit(i)])
        foot == Tup([i \in 1..(Len(tp) - p) |-> lit(p + i)])
        R(e) == RenderWord(W, O, e, tp[p])
        G == TLCEval(Render(groups, R))
        wrapped(a) == Len(a) >= Len(head) + Len(foot) /\ StartsWith(a, head) /\ EndsWith(a, foot)
        args(a) == SubSeq(a, Len(head) + 1, Len(a) - Len(foot))
        total == FlattenSeq(Tup([i \in DOMAIN o.cmds |-> args(o.cmds[i].a)]))
        es == AllItems(groups)
        n == Taken(groups)
        anyfail == \E i \in DOMAIN o.cmds : CmdFails(o.cmds[i].a)
    IN IF Cardinality(places) = 1 /\ n > 0 /\ ~Unclear(W, O, PlacesOf(X.batch), es) /\ Clear(groups, R) /\ O.limit = None /\ \E i \in DOMAIN AllItems(G) : Has(AllItems(G)[i], 0)
       \* a result that cannot be passed to a command
       THEN If(o.st = 3, "exit status") \cup If(o.errn > 0, "no error message")
       ELSE
       (IF n = 0 THEN If(o.cmds = << >>, "command without results")
        ELSE IF Unclear(W, O, PlacesOf(X.batch), es) THEN {}
        ELSE IF Cardinality(places) = 1
        THEN If(\A i \in DOMAIN o.cmds : wrapped(o.cmds[i].a), "fixed arguments")
             \cup If(~(\A i \in DOMAIN o.cmds : wrapped(o.cmds[i].a)) \/ ~Clear(groups, R) \/ Consume(G, total, 1), "batch arguments")
        ELSE IF \A i \in DOMAIN groups : Len(groups[i].l) = 1
        THEN If(rec.big \/ (Len(o.cmds) = 1 /\ o.cmds[1].a = BatchCommand(W, O, tp, es)), "batch arguments")
        ELSE {})
       \cup If(n = 0 \/ (IF rec.big THEN Len(o.cmds) >= 1 ELSE Len(o.cmds) = 1), "number of commands")
       \cup If(o.st = (IF anyfail THEN 3 ELSE plain), "exit status")
JudgeSearch(rec, W, O, X) ==
    LET o == rec.obs
        es == TLCEval(Results(W, O, X))
        groups == TLCEval(Sliced(O, Ordered(W, O, X, es)))
        plain == IF O.fail /\ es = << >> THEN 1 ELSE 0
    IN IF rec.kind = "api"
       THEN LET J == Tup([i \in DOMAIN groups |-> [l |-> Tup([k \in DOMAIN groups[i].l |-> JsonRecord(W, O, X.out, groups[i].l[k])]),
                                               take |-> groups[i].take]])
            IN If(o.exc = "", "unexpected error") \cup If(Consume(J, ObsRecords(o.recs), 1), "API records")
               \cup If(o.attr, "attribute access differs from key access")
       ELSE (IF o.scan THEN If(\A i \in DOMAIN o.scans : o.scans[i] \in MayRead(W, O, X),
                               "an excluded directory was read") ELSE {}) \cup
            IF O.count # None
       THEN JudgeCount(W, O, X, o, es) \cup If(o.st = plain, "exit status")
       ELSE IF O.exec # None THEN JudgeExec(W, O, X, o, groups, rec, plain)
       ELSE IF O.batch # None THEN JudgeBatch(W, O, X, o, groups, rec, plain)
       ELSE (IF rec.enc = "strict" THEN JudgeConsole(W, O, X, o, groups, TRUE) ELSE JudgeConsole(W, O, X, o, groups, FALSE)) \cup If(o.st = plain, "exit status")
\* --version, --clean-cache and the help pages: nothing is searched; errors of other options may be reported
JudgeAction(rec, p, errs) ==
    LET o == rec.obs
        unknown == p.o.help # None /\ p.o.action = "" /\ p.o.help[1] \notin DOMAIN PluginTab
    IN IF rec.fault = "man" THEN If(o.st \in errs \cup {EX_USAGE}, "exit status") \cup If(o.errn > 0, "no error message")
       ELSE IF p.o.help = Some(T("all")) THEN If(o.st = 0, "exit status")
       ELSE IF unknown THEN If(o.st \in errs \cup {EX_USAGE}, "exit status") \cup If(o.errn > 0, "no error message")
       ELSE If(o.st \in errs \cup {0}, "exit status") \cup If(o.st = 0 \/ o.errn > 0, "no error message")
\* a broken plugin, or a cache that cannot be opened
JudgeFault(rec, errs) ==
    LET o == rec.obs IN
    CASE rec.fault = "load" -> JudgeErrors(rec, errs \cup {EX_PLUGIN})
      [] rec.fault = "setup" -> JudgeErrors(rec, {EX_PLUGIN})
      [] rec.fault = "cache" -> JudgeErrors(rec, errs \cup {EX_USAGE})
      [] rec.fault = "run" -> If(o.st \in {EX_PLUGIN, EX_PROCESS}, "exit status") \cup If(o.errn > 0, "no error message")
\* a search that was given up: everything that was reported is a result, and none is reported twice
JudgePartial(rec, W, O, X) ==
    LET o == rec.obs
        es == TLCEval(Results(W, O, X))
    IN If(rec.kind = "api" \/ o.errn > 0, "no error message")
       \cup (IF O.limit # None \/ O.count # None \/ O.batch # None \/ Unclear(W, O, IF O.exec # None THEN PlacesOf(X.exec) ELSE X.out, es) THEN {}
             ELSE IF rec.kind = "api" THEN If(WithinBag(ObsRecords(o.recs), TLCEval(Tup([k \in DOMAIN es |-> JsonRecord(W, O, X.out, es[k])]))), "API records")
             ELSE IF O.exec # None THEN LET c == TLCEval(FlattenSeq(Tup([k \in DOMAIN es |-> Command(W, O, X.exec, es[k])])))
                                            a == Recorded(o.cmds, rec) IN If(WithinBag(a, c), "executed commands")
             ELSE IF O.json # "" THEN If(~o.jok \/ WithinBag(ObsRecords(o.json), TLCEval(Tup([k \in DOMAIN es |-> JsonRecord(W, O, X.out, es[k])]))), "JSON records")
             ELSE LET r == TLCEval(FlattenSeq(Tup([k \in DOMAIN es |-> Record(W, O, X.out, es[k])])))
                  IN If(WithinBag(o.pieces, AllItems(Pieces(<<[l |-> r, take |-> Len(r)]>>, O.newline))), "console records"))
JudgeWorker(rec, W, O, X) ==
    LET o == rec.obs
        gaveup == IF rec.kind = "api" THEN o.exc # "" ELSE o.st = EX_PROCESS
    IN IF gaveup THEN JudgePartial(rec, W, O, X)
       ELSE IF rec.fault = "worker!" THEN {"the failure of a worker is not reported"}
       ELSE JudgeSearch(rec, W, O, X)
\* file system operations that failed: nothing but the entries concerned is missing
FaultMet(W, M, f) ==        \* M: the directories that are read
    IF f.c \in {"scan", "next"} THEN f.p \in M
    ELSE f.c = "stat" /\ DirName(f.p) \in M /\ ~Fails(W, "scan", DirName(f.p))
JudgeWarnings(rec, W, O, X) ==
    LET M == MayRead(W, O, X) IN
    If(rec.obs.errn > 0 \/ ~\E k \in DOMAIN W.flt : W.flt[k].w = "yes" /\ FaultMet(W, M, W.flt[k]), "no warning")
    \cup If(rec.obs.errn = 0 \/ \E k \in DOMAIN W.flt : W.flt[k].w # "no", "needless warning")
\* a file system that changes during the search: everything that is there all the time is reported,
\* everything that is reported was there at some time
JudgeBounds(rec, Lo, Hi, O, X) ==
    LET o == rec.obs
        lo == TLCEval(Results(Lo, O, X)) hi == TLCEval(Results(Hi, O, X))
        recs(W, es) == FlattenSeq(Tup([k \in DOMAIN es |-> Record(W, O, X.out, es[k])]))
        json(W, es) == Tup([k \in DOMAIN es |-> JsonRecord(W, O, X.out, es[k])])
        l == TLCEval(IF O.json # "" THEN json(Lo, lo) ELSE recs(Lo, lo))
        h == TLCEval(IF O.json # "" THEN json(Hi, hi) ELSE recs(Hi, hi))
        obs == TLCEval(IF O.json # "" THEN ObsRecords(o.json) ELSE o.pieces)
    IN If(o.st = 0, "exit status") \cup If(o.jok, "malformed JSON") \cup If(o.tail = << >>, "unfinished record")
       \cup If(WithinBag(l, obs), "an entry that is not affected is missing")
       \cup If(WithinBag(obs, h), "something was reported that was never there, or twice")
       \cup JudgeWarnings(rec, Lo, O, X)
JudgeRec(rec) ==
    LET W == Worlds[rec.w]
        m == IF rec.kind = "api" THEN [ok |-> TRUE, o |-> SplitDirs(W, ApiOptions(rec.q))] ELSE Meaning(W, rec.words)
        act == IF rec.kind = "api" THEN PErr ELSE ParseWords(rec.words, Default)
        O == m.o
        overlap == rec.kind = "api" /\ Overlap(W, O.dirs)
        X == TLCEval(Compile(W, O))
        modified == rec.kind = "api" /\ \E i \in DOMAIN X.out : X.out[i].m \notin {0, mN}
        errs == IF ~m.ok \/ overlap \/ modified \/ (rec.kind = "api" /\ O.jobs < 0) THEN {EX_USAGE} \cup X.errs ELSE X.errs
    IN If(~rec.obs.to, "the search does not end") \cup If(rec.obs.left = 0, "processes left behind")
       \cup (IF rec.obs.to THEN {}
             ELSE IF act.ok /\ (act.o.action # "" \/ act.o.help # None) THEN JudgeAction(rec, act, errs)
             ELSE IF rec.fault \in {"worker", "worker!"} THEN JudgeWorker(rec, W, O, X)
             ELSE IF rec.fault = "bounds" THEN IF errs # {} THEN {} ELSE JudgeBounds(rec, W, Worlds[rec.hi], O, X)
             ELSE IF rec.fault = "io" THEN IF errs # {} THEN JudgeErrors(rec, errs) ELSE JudgeSearch(rec, W, O, X) \cup JudgeWarnings(rec, W, O, X)
             ELSE IF rec.fault # "" THEN JudgeFault(rec, errs)
             ELSE IF errs # {} THEN JudgeErrors(rec, errs) ELSE JudgeSearch(rec, W, O, X))

VARIABLE idxvar
Init == idxvar \in DOMAIN Recs
Next == FALSE /\ UNCHANGED idxvar
Spec == Init /\ [][Next]_idxvar
\* the results the specification expects, for a reader (only with EXPLAIN in the environment)
Explain(rec) ==
    LET W == Worlds[rec.w]
        m == IF rec.kind = "api" THEN [ok |-> TRUE, o |-> SplitDirs(W, ApiOptions(rec.q))] ELSE Meaning(W, rec.words)
        X == Compile(W, m.o)
    IN IF ~m.ok THEN PrintT("EXPLAIN usage error")
       ELSE IF X.errs # {} THEN PrintT(<<"EXPLAIN errors", X.errs>>)
       ELSE LET es == Results(W, m.o, X)
                G == Sliced(m.o, Ordered(W, m.o, X, es))
            IN \A k \in DOMAIN G : PrintT("EXPLAIN " \o ToString(G[k].take) \o " " \o ToJson(Tup([j \in DOMAIN G[k].l |->
                    <<G[k].l[j].path, Record(W, m.o, X.out, G[k].l[j])>>])))
Verdict == LET v == JudgeRec(Recs[idxvar]) IN
           IF v = {} THEN TRUE
           ELSE /\ PrintT("BAD " \o ToString(Recs[idxvar].id) \o " " \o ToString(v))
                /\ "EXPLAIN" \in DOMAIN IOEnv => Explain(Recs[idxvar])
Conforms == Verdict
=============================================================================
