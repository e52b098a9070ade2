-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The command line: options of FF_OPTIONS and of the command line itself, *)
(* in this order, give an options record; other words are tests or start   *)
(* directories.                                                            *)
(***************************************************************************)
EXTENDS Fields

Default ==
  [tests |-> << >>, dirs |-> << >>, exclude |-> << >>, hide |-> FALSE, ignore |-> FALSE, noparent |-> FALSE,
   igfiles |-> {T(".ignore"), T(".gitignore"), T(".fdignore"), T(".ffignore")},
   depth |-> None, case |-> "smart", follow |-> FALSE, onefs |-> FALSE, fail |-> FALSE, exec |-> None, batch |-> None,
   halt |-> "never", color |-> "auto", abs |-> FALSE, newline |-> NL, output |-> <<T("path")>>, sort |-> None, reverse |-> FALSE,
   count |-> None, limit |-> None, sep |-> <<SP>>, all |-> FALSE, json |-> "", si |-> FALSE, jobs |-> 0,
   cache |-> Some(<< >>), action |-> "", help |-> None, debug |-> None]

\* [s: spellings, a: action, d: destination, t: type of the argument, c: constant]
Opt(s, a, d, t, c) == [s |-> {T(s[i]) : i \in DOMAIN s}, a |-> a, d |-> d, t |-> t, c |-> c]
LsOutput == <<T("mode:h"), T("links"), T("user:h"), T("group:h"), T("size:5h"), T("time:h"), T("path:h")>>
Options == <<
  Opt(<<"--debug">>, "store", "debug", "text", 0),
  Opt(<<"--cache">>, "store", "cache", "text", 0),
  Opt(<<"--no-cache">>, "const", "cache", "", None),
  Opt(<<"--clean-cache">>, "const", "action", "", "clean"),
  Opt(<<"-j", "--jobs">>, "store", "jobs", "jobs", 0),
  Opt(<<"-D", "--directory">>, "append", "dirs", "", 0),
  Opt(<<"-h", "--help">>, "optional", "help", "text", T("all")),
  Opt(<<"--version">>, "const", "action", "", "version"),
  Opt(<<"--help-full">>, "const", "action", "", "full"),
  Opt(<<"--help-attributes">>, "const", "action", "", "attributes"),
  Opt(<<"--help-plugins">>, "const", "action", "", "plugins"),
  Opt(<<"--help-types">>, "const", "action", "", "types"),
  Opt(<<"-e", "--exclude">>, "append", "exclude", "", 0),
  Opt(<<"-H", "--hide">>, "const", "hide", "", TRUE),
  Opt(<<"-I", "--ignore">>, "const", "ignore", "", TRUE),
  Opt(<<"--no-parent-ignore">>, "const", "noparent", "", TRUE),
  Opt(<<"--ignore-files">>, "store", "igfiles", "set", 0),
  Opt(<<"-d", "--depth">>, "store", "depth", "ranges", 0),
  Opt(<<"-c", "--case">>, "store", "case", "case", 0),
  Opt(<<"-L", "--follow">>, "const", "follow", "", TRUE),
  Opt(<<"--one-file-system", "--mount", "--xdev">>, "const", "onefs", "", TRUE),
  Opt(<<"--fail">>, "const", "fail", "", TRUE),
  Opt(<<"-x", "--exec">>, "rest", "exec", "", 0),
  Opt(<<"-X", "--exec-batch">>, "rest", "batch", "", 0),
  Opt(<<"--halt", "--halt-on-error">>, "store", "halt", "halt", 0),
  Opt(<<"-C", "--color">>, "store", "color", "color", 0),
  Opt(<<"-a", "--absolute-path">>, "const", "abs", "", TRUE),
  Opt(<<"-0", "--print0">>, "const", "newline", "", NUL),
  Opt(<<"-v", "--verbose">>, "const", "output", "", LsOutput),
  Opt(<<"-S", "--sort">>, "optional", "sort", "list", <<T("file.path")>>),
  Opt(<<"-R", "--reverse">>, "const", "reverse", "", TRUE),
  Opt(<<"--count">>, "optional", "count", "list", << << >> >>),
  Opt(<<"-l", "--limit">>, "store", "limit", "slice", 0),
  Opt(<<"-1">>, "const", "limit", "", Some(<<0, Some(1)>>)),
  Opt(<<"-o", "--output">>, "store", "output", "plainlist", 0),
  Opt(<<"--sep">>, "store", "sep", "plain", 0),
  Opt(<<"--all">>, "const", "all", "", TRUE),
  Opt(<<"--json">>, "const", "json", "", "json"),
  Opt(<<"--jsonl", "--ndjson">>, "const", "json", "", "jsonl"),
  Opt(<<"--si">>, "const", "si", "", TRUE)>>
OptionTab == TLCEval([s \in UNION {Options[i].s : i \in DOMAIN Options} |-> Options[CHOOSE i \in DOMAIN Options : s \in Options[i].s]])

ListOf(t) == LET P == SplitOn(t, COMMA) IN Tup([i \in DOMAIN P |-> Strip(P[i])])
SignedInt(t) == t # << >> /\ (AllDigits(t) \/ (t[1] = DASH /\ AllDigits(Drop(t, 1))))
Word(t, words) == LET P == {w \in words : T(w) = t} IN IF P = {} THEN None ELSE Some(CHOOSE w \in P : TRUE)
\* a depth range <<start, option of stop>>
ParseRange(t) ==
    LET d == FirstPos(t, DASH)
        a == Take(t, d - 1)
        b == Drop(t, d)
    IN IF AllDigits(t) THEN Some(<<Dec(t), Some(Dec(t))>>)
       ELSE IF d = 0 \/ ~AllIn(a, IsDigit) \/ ~AllIn(b, IsDigit) THEN None
       ELSE LET x == IF a = << >> THEN 0 ELSE Dec(a) IN
            IF b = << >> THEN Some(<<x, None>>)
            ELSE IF Dec(b) < x THEN Some(<<Dec(b), Some(x)>>) ELSE Some(<<x, Some(Dec(b))>>)
ParseSlice(t) ==                \* <<start, option of stop>>
    LET c == FirstPos(t, COLON)
        m == FirstPos(t, COMMA)
        a == Take(t, c - 1)
        b == Drop(t, c)
    IN IF c > 0
       THEN IF (a = << >> \/ SignedInt(a)) /\ (b = << >> \/ SignedInt(b))
            THEN Some(<<IF a = << >> THEN 0 ELSE IntOf(a), IF b = << >> THEN None ELSE Some(IntOf(b))>>)
            ELSE None
       ELSE IF m > 0 /\ AllDigits(Take(t, m - 1)) /\ AllDigits(Drop(t, m))
       THEN LET n == Dec(Take(t, m - 1)) p == Dec(Drop(t, m)) IN Some(<<n * p, Some(n * (p + 1))>>)
       ELSE None
\* the value of an option's argument, as an option
MaxCpu == 16
Convert(ty, t) ==
    CASE ty \in {"text"} -> Some(Some(t))
      [] ty = "plain" -> Some(t)
      [] ty = "jobs" -> IF AllDigits(t) THEN LET n == Dec(t) IN Some(IF n = 0 \/ n > MaxCpu THEN MaxCpu ELSE n) ELSE None
      [] ty = "set" -> LET L == ListOf(t) IN Some({L[i] : i \in DOMAIN L})
      [] ty = "ranges" -> LET L == ListOf(t) R == Tup([i \in DOMAIN L |-> ParseRange(L[i])])
                          IN IF \E i \in DOMAIN R : R[i] = None THEN None ELSE Some(Some(Tup([i \in DOMAIN R |-> R[i][1]])))
      [] ty = "case" -> Word(t, {"smart", "ignore", "sensitive"})
      [] ty = "halt" -> Word(t, {"never", "soon", "now"})
      [] ty = "color" -> Word(t, {"auto", "never", "always"})
      [] ty = "list" -> Some(Some(ListOf(t)))
      [] ty = "plainlist" -> Some(ListOf(t))
      [] ty = "slice" -> LET s == ParseSlice(t) IN IF s = None THEN None ELSE Some(s)

PErr == [ok |-> FALSE, o |-> Default]
TakesArg(o) == o.a \in {"store", "optional", "append"}
IsOpt(w) == w # << >> /\ w[1] = DASH
IsLong(w) == Len(w) >= 2 /\ w[1] = DASH /\ w[2] = DASH
RECURSIVE ParseWords(_, _), ParseOption(_, _, _)
\* a single spelled-out option s followed by the words ws
ParseOption(s, ws, O) ==
    IF s \notin DOMAIN OptionTab THEN PErr
    ELSE LET o == OptionTab[s] IN
    CASE o.a = "const" -> ParseWords(ws, [O EXCEPT ![o.d] = o.c])
      [] o.a = "append" -> IF ws = << >> THEN PErr
                           ELSE ParseWords(Drop(ws, 1), [O EXCEPT ![o.d] = Append(O[o.d], ws[1])])
      [] o.a = "store" -> IF ws = << >> THEN PErr
                          ELSE LET v == Convert(o.t, ws[1]) IN
                               IF v = None THEN PErr ELSE ParseWords(Drop(ws, 1), [O EXCEPT ![o.d] = v[1]])
      [] o.a = "optional" -> IF ws # << >> /\ ~IsOpt(ws[1])
                             THEN ParseWords(Drop(ws, 1), [O EXCEPT ![o.d] = Convert(o.t, ws[1])[1]])
                             ELSE ParseWords(ws, [O EXCEPT ![o.d] = Some(o.c)])
      [] o.a = "rest" -> IF ws = << >> THEN PErr
                         ELSE [ok |-> TRUE, o |-> [O EXCEPT ![o.d] = Some(IF O[o.d] = None THEN ws ELSE O[o.d][1] \o ws)]]
ParseWords(ws, O) ==
    IF ws = << >> THEN [ok |-> TRUE, o |-> O]
    ELSE LET w == ws[1] rest == Drop(ws, 1) IN
    IF ~IsOpt(w)
    THEN IF O.tests # << >> THEN PErr
         ELSE LET P == {i \in DOMAIN ws : IsOpt(ws[i])}
                  n == IF P = {} THEN Len(ws) ELSE Min(P) - 1
              IN ParseWords(Drop(ws, n), [O EXCEPT !.tests = Take(ws, n)])
    ELSE IF ~IsLong(w) /\ Len(w) > 2
    THEN LET s == <<DASH, w[2]>> tail == Drop(w, 2) IN
         IF s \notin DOMAIN OptionTab THEN PErr
         ELSE IF TakesArg(OptionTab[s]) THEN ParseOption(s, <<tail>> \o rest, O)
         ELSE ParseOption(s, << <<DASH>> \o tail>> \o rest, O)
    ELSE IF IsLong(w) /\ Has(w, EQUALS)
    THEN LET s == Take(w, FirstPos(w, EQUALS) - 1) v == Drop(w, FirstPos(w, EQUALS)) IN
         IF s \notin DOMAIN OptionTab \/ ~TakesArg(OptionTab[s]) THEN PErr
         ELSE ParseOption(s, <<v>> \o rest, O)
    ELSE ParseOption(w, rest, O)

(* ---- directories among the arguments ---- *)
IsStartDir(W, t) == Has(t, SLASH) /\ LET i == FindNode(W, t, TRUE) IN i # 0 /\ W.nodes[i].ty = "directory"
SplitDirs(W, O) ==
    IF O.dirs # << >> THEN O
    ELSE LET n == Len(O.tests)
             lead == LET P == {i \in 1..n : ~IsStartDir(W, O.tests[i])} IN IF P = {} THEN n ELSE Min(P) - 1
             mid == Drop(O.tests, lead)
             keep == LET P == {i \in DOMAIN mid : ~IsStartDir(W, mid[i])} IN IF P = {} THEN 0 ELSE Max(P)
             trail == Drop(mid, keep)
             dirs == Tup([i \in 1..lead |-> NormPath(O.tests[i])]) \o
                     Tup([i \in DOMAIN trail |-> NormPath(trail[Len(trail) + 1 - i])])
         IN [O EXCEPT !.tests = Take(mid, keep), !.dirs = IF dirs = << >> THEN <<Dots>> ELSE dirs]
Overlap(W, dirs) == \E i, j \in DOMAIN dirs : i # j /\ Below(AbsPath(W.cwd, dirs[i]), AbsPath(W.cwd, dirs[j]))

\* What the arguments mean: [ok, o]
Meaning(W, words) ==
    LET p == ParseWords(words, Default) IN
    IF ~p.ok THEN PErr
    ELSE LET o1 == SplitDirs(W, p.o)
             o2 == IF o1.json # "" THEN [o1 EXCEPT !.abs = TRUE, !.color = "never"] ELSE o1
             o3 == IF o2.exec # None \/ o2.batch # None \/ o2.count # None THEN [o2 EXCEPT !.output = <<T("path")>>] ELSE o2
             o4 == IF o3.count # None THEN [o3 EXCEPT !.sort = None] ELSE o3
             o5 == IF o4.count = Some(<< << >> >>)
                   THEN [o4 EXCEPT !.count = Some(IF o4.json # "" THEN <<T("file.size"), T("file.type")>>
                                                  ELSE <<T("file.size:h"), T("file.type")>>)]
                   ELSE o4
         IN IF \/ o5.count # None /\ (o5.exec # None \/ o5.batch # None \/ o5.limit # None)
               \/ Overlap(W, o5.dirs)
            THEN PErr
            ELSE [ok |-> TRUE, o |-> o5]
=============================================================================
