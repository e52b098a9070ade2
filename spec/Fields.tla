------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Output: fields, console records, JSON values, the arguments of executed *)
(* commands, statistics, and sort keys.                                    *)
(***************************************************************************)
EXTENDS Tests

(* ---- fields: attribute[:[width][modifier]] ---- *)
NameC(c) == IsAlnum(c) \/ c = UNDER
PartOk(t) == Len(t) >= 2 /\ IsAlpha(t[1]) /\ AllIn(t, NameC)
Modifiers == {104, 111, 120, 110, 118}          \* h o x n v
FieldErr(c) == [err |-> {c}, at |-> BadAttr, w |-> None, m |-> 0]
IntOf(t) == IF t # << >> /\ t[1] = DASH THEN -Dec(Drop(t, 1)) ELSE Dec(t)
ParseField(text) ==
    LET t == Strip(text)
        c == FirstPos(t, COLON)
        name == IF c = 0 THEN t ELSE Take(t, c - 1)
        opt == IF c = 0 THEN << >> ELSE Drop(t, c)
        mod == IF opt # << >> /\ opt[Len(opt)] \in Modifiers THEN opt[Len(opt)] ELSE 0
        width == IF mod = 0 THEN opt ELSE Take(opt, Len(opt) - 1)
        wok == width = << >> \/ AllDigits(width) \/ (width[1] = DASH /\ AllDigits(Drop(width, 1)))
        parts == SplitOn(name, DOT)
    IN IF Len(parts) \notin {1, 2} \/ (\E i \in DOMAIN parts : ~PartOk(parts[i])) \/ ~wok THEN FieldErr(EX_USAGE)
       ELSE LET at == ResolveAttr(name) IN
            IF ~at.ok THEN FieldErr(EX_ATTRIBUTE)
            ELSE [err |-> {}, at |-> at, w |-> IF width = << >> THEN None ELSE Some(IntOf(width)), m |-> mod]
FieldErrs(fs) == UNION {fs[i].err : i \in DOMAIN fs}

(* ---- the text of a value ---- *)
mH == 104
mX == 120
mO == 111
mN == 110
mV == 118
SizeText(n, si) == LET S == FormatSize(n, si) IN CHOOSE s \in S : TRUE
SizeUnclear(n, si) == Cardinality(FormatSize(n, si)) > 1
ValueText(W, O, ty, m, v) ==
    CASE ty \in {"String", "Path", "FileType"} -> v
      [] ty = "List" -> JoinWith(v, <<COMMA>>)
      [] ty = "Boolean" -> IF v THEN T("true") ELSE T("false")
      [] ty = "Mode" -> (CASE m = mH -> FileMode(v) [] m = mX -> BaseText(FromInt(v), 16) [] m = mO -> BaseText(FromInt(v), 8)
                          [] OTHER -> IntText(v))
      [] ty = "Size" /\ m = mH -> SizeText(v, O.si)
      [] ty = "Time" /\ m = mH -> FormatTime(v, W.env)
      [] ty = "Duration" /\ m = mH -> FormatDuration(v)
      [] OTHER -> CASE m = mX -> BaseText(v, 16) [] m = mO -> BaseText(v, 8) [] OTHER -> NumText(v)

(* ---- console records ---- *)
PadText(t, w) ==
    LET n == IF w < 0 THEN -w ELSE w
        fill == Tup([i \in 1..(IF n > Len(t) THEN n - Len(t) ELSE 0) |-> SP])
    IN IF w < 0 THEN t \o fill ELSE fill \o t
FieldText(W, O, e, f) ==        \* an option
    LET v == AttrValue(W, e, f.at) IN
    IF v = None THEN None
    ELSE LET s == IF f.at.p = "file" /\ f.at.a = "path" /\ f.m = mH /\ W.nodes[e.s].ty = "symlink"
                  THEN v[1] \o T(" -> ") \o W.nodes[e.s].lk[1]
                  ELSE ValueText(W, O, f.at.ty, f.m, v[1])
         IN Some(IF f.w = None THEN s ELSE PadText(s, f.w[1]))
RECURSIVE Subst(_, _, _)
Subst(t, from, to) ==
    IF Len(t) < Len(from) THEN t
    ELSE IF StartsWith(t, from) THEN to \o Subst(Drop(t, Len(from)), from, to)
    ELSE <<t[1]>> \o Subst(Drop(t, 1), from, to)
Separator(O) == Subst(Subst(O.sep, <<BSLASH, 116>>, <<TAB>>), <<BSLASH, 110>>, <<NL>>)
Record(W, O, F, e) ==           \* an option: the line without its end
    LET P == Tup([i \in DOMAIN F |-> LET t == FieldText(W, O, e, F[i]) IN
                                 IF t = None /\ (O.all \/ F[i].m = mN) THEN Some(<< >>) ELSE t])
    IN IF \E i \in DOMAIN P : P[i] = None THEN None
       ELSE Some(JoinWith(Tup([i \in DOMAIN P |-> P[i][1]]), Separator(O)))

\* how a half is rounded is not specified
Unclear(W, O, F, es) ==
    \E i \in DOMAIN F : /\ F[i].at.ty = "Size" /\ F[i].m = mH
                       /\ \E j \in DOMAIN es : LET v == AttrValue(W, es[j], F[i].at) IN v # None /\ SizeUnclear(v[1], O.si)
UnclearSum(W, O, F, es) ==
    \E i \in DOMAIN F : /\ F[i].at.ty = "Size" /\ F[i].m = mH
                       /\ SizeUnclear(SumNums(FilterMap(es, LAMBDA e : AttrValue(W, e, F[i].at))), O.si)
PlacesOf(tp) == FlattenSeq(Tup([i \in DOMAIN tp |-> FilterMap(tp[i], LAMBDA x : IF x.lit THEN None ELSE Some(x.f))]))

(* ---- JSON records: sequences of <<key, value>> ---- *)
JNull == [k |-> "null", v |-> << >>]
JsonValue(W, O, f, v) ==
    IF f.m = mH THEN [k |-> "str", v |-> ValueText(W, O, f.at.ty, f.m, v)]
    ELSE CASE f.at.ty \in {"String", "Path", "FileType"} -> [k |-> "str", v |-> v]
           [] f.at.ty = "List" -> [k |-> "list", v |-> v]
           [] f.at.ty = "Boolean" -> [k |-> "bool", v |-> v]
           [] f.at.ty = "Mode" -> [k |-> "num", v |-> FromInt(v)]
           [] OTHER -> [k |-> "num", v |-> v]
JsonRecord(W, O, F, e) ==       \* one value per name: the last one
    {<<F[i].at.txt, LET v == AttrValue(W, e, F[i].at) IN IF v = None THEN JNull ELSE JsonValue(W, O, F[i], v[1])>> :
       i \in {j \in DOMAIN F : \A k \in DOMAIN F : F[k].at.txt = F[j].at.txt => k <= j}}
JsonOf(j) == [k |-> j.k, v |-> CASE j.k = "num" -> NumOf(j.v) [] j.k = "null" -> << >> [] OTHER -> j.v]

(* ---- command templates ---- *)
\* split a word into literals [lit |-> TRUE, t] and placeholders [lit |-> FALSE, f]
NamedPlace(t) ==                \* {...}
    LET b == SubSeq(t, 2, Len(t) - 1) IN
    CASE b = << >> -> T("file.path")
      [] b = T("/") -> T("file.name")
      [] b = T("//") -> T("file.dir")
      [] b = T(".") -> T("file.pathx")
      [] b = T("/.") -> T("file.namex")
      [] b = T("..") -> T("file.ext")
      [] OTHER -> b
Lit(t) == [lit |-> TRUE, t |-> t, f |-> FieldErr(0)]
Place(t) == [lit |-> FALSE, t |-> << >>, f |-> ParseField(NamedPlace(t))]
RECURSIVE WordParts(_)
WordParts(t) ==
    IF t = << >> THEN << >>
    ELSE IF StartsWith(t, <<LBRACE, LBRACE>>) THEN <<Lit(<<LBRACE>>)>> \o WordParts(Drop(t, 2))
    ELSE IF StartsWith(t, <<RBRACE, RBRACE>>) THEN <<Lit(<<RBRACE>>)>> \o WordParts(Drop(t, 2))
    ELSE IF t[1] = LBRACE /\ FirstPos(t, RBRACE) > 0
    THEN LET e == FirstPos(t, RBRACE) IN <<Place(Take(t, e))>> \o WordParts(Drop(t, e))
    ELSE <<Lit(<<t[1]>>)>> \o WordParts(Drop(t, 1))
HasPlace(word) == \E i \in DOMAIN word : ~word[i].lit
Template(words) ==
    LET P == Tup([i \in DOMAIN words |-> WordParts(words[i])])
    IN IF \E i \in 2..Len(P) : HasPlace(P[i]) THEN P ELSE Append(P, WordParts(<<LBRACE, RBRACE>>))
TemplateErrs(tp, batch) ==
    UNION {UNION {IF tp[i][j].lit THEN {} ELSE tp[i][j].f.err : j \in DOMAIN tp[i]} : i \in DOMAIN tp}
    \cup (IF batch /\ HasPlace(tp[1]) THEN {EX_USAGE} ELSE {})
RenderWord(W, O, e, word) ==    \* an option
    LET P == Tup([j \in DOMAIN word |->
                IF word[j].lit THEN Some(word[j].t)
                ELSE LET f == word[j].f v == AttrValue(W, e, f.at) IN
                     IF v = None THEN (IF O.all \/ f.m = mN THEN Some(<< >>) ELSE None)
                     ELSE Some(ValueText(W, O, f.at.ty, f.m, v[1]))])
    IN IF \E j \in DOMAIN P : P[j] = None THEN None ELSE Some(FlattenSeq(Tup([j \in DOMAIN P |-> P[j][1]])))
Command(W, O, tp, e) ==         \* an option: the argument vector for one entry
    LET A == Tup([i \in DOMAIN tp |-> RenderWord(W, O, e, tp[i])])
    IN IF \E i \in DOMAIN A : A[i] = None THEN None ELSE Some(Tup([i \in DOMAIN A |-> A[i][1]]))
BatchCommand(W, O, tp, es) ==   \* the argument vector for a sequence of entries
    FlattenSeq(Tup([i \in DOMAIN tp |->
       IF ~HasPlace(tp[i]) THEN <<FlattenSeq(Tup([j \in DOMAIN tp[i] |-> tp[i][j].t]))>>
       ELSE FilterMap(es, LAMBDA e : RenderWord(W, O, e, tp[i]))]))

(* ---- statistics ---- *)
Total(ty) == ty \in {"Size", "Duration"}
CountErrs(F) == FieldErrs(F) \cup (IF \E i \in DOMAIN F : F[i].at.ty = "List" THEN {EX_USAGE} ELSE {})
\* set of <<name, key (option), value text or number>>
CountFacts(W, O, F, es) ==
    LET one(f) ==
          LET vs == FilterMap(es, LAMBDA e : AttrValue(W, e, f.at))
          IN IF vs = << >> THEN {}
             ELSE IF Total(f.at.ty)
             THEN {<<FullName(f.at), f.at.txt, None,
                     LET s == SumNums(vs) IN IF f.m = 0 THEN [k |-> "num", v |-> s] ELSE [k |-> "str", v |-> ValueText(W, O, f.at.ty, f.m, s)]>>}
             ELSE LET ts == Tup([i \in DOMAIN vs |-> ValueText(W, O, f.at.ty, f.m, vs[i])])
                  IN {<<FullName(f.at), f.at.txt, Some(t), [k |-> "num", v |-> FromInt(CountIn(ts, t))]>> : t \in {ts[i] : i \in DOMAIN ts}}
    IN {<<T("_total"), T("_total"), None, [k |-> "num", v |-> FromInt(Len(es))]>>} \cup UNION {one(F[i]) : i \in DOMAIN F}
CountLine(x) ==
    x[2] \o (IF x[3] = None THEN << >> ELSE <<LBRACK>> \o x[3][1] \o <<RBRACK>>) \o <<EQUALS>>
         \o (IF x[4].k = "num" THEN NumText(x[4].v) ELSE x[4].v)

(* ---- sort keys ---- *)
SortText(ty, t) ==
    IF ty = "Path" THEN LET C == SplitOn(Lower(t), SLASH)
                        IN JoinWith(Tup([i \in DOMAIN C |-> LStripChar(C[i], DOT)]), <<SLASH>>)
    ELSE IF ty = "String" THEN Lower(t) ELSE t
\* extensions that do not start with a digit, last one first
RECURSIVE SplitExts(_, _)
SplitExts(c, exts) ==
    LET d == ExtPos(c)
        x == IF d = 0 THEN << >> ELSE LStripChar(Drop(c, d), DOT)
    IN IF x = << >> \/ IsDigit(x[1]) THEN <<c, exts>> ELSE SplitExts(Take(c, d - 1), <<x>> \o exts)
\* alternating runs of other characters and digits
RECURSIVE DigitRuns(_)
DigitRuns(t) ==
    LET n == LET P == {i \in DOMAIN t : IsDigit(t[i])} IN IF P = {} THEN Len(t) ELSE Min(P) - 1
        rest == Drop(t, n)
        m == LET P == {i \in DOMAIN rest : ~IsDigit(rest[i])} IN IF P = {} THEN Len(rest) ELSE Min(P) - 1
    IN <<[d |-> FALSE, t |-> Take(t, n)]>> \o
       (IF rest = << >> THEN << >> ELSE <<[d |-> TRUE, t |-> Take(rest, m)]>> \o DigitRuns(Drop(rest, m)))
VersionKey(t) ==
    LET C == SplitOn(NormPath(t), SLASH)
    IN FlattenSeq(Tup([i \in DOMAIN C |->
          LET x == SplitExts(C[i], << >>)
          IN <<DigitRuns(x[1])>> \o
             (IF x[2] = << >> THEN << >> ELSE <<Tup([j \in DOMAIN x[2] |-> [d |-> FALSE, t |-> x[2][j]]])>>)]))
Zero0(ty) == CASE ty \in {"String", "Path", "FileType", "List"} -> << >> [] ty = "Mode" -> 0 [] ty = "Boolean" -> FALSE [] OTHER -> Zero
SortKey(W, f, e) ==
    LET v == AttrValue(W, e, f.at)
        x == IF v = None THEN Zero0(f.at.ty) ELSE v[1]
    IN CASE f.at.ty \in {"String", "Path", "FileType"} ->
              LET s == SortText(f.at.ty, x) IN IF f.m = mV THEN VersionKey(s) ELSE s
         [] f.at.ty = "Boolean" -> IF x THEN 1 ELSE 0
         [] OTHER -> x
\* lexicographic comparison of sequences by C
RECURSIVE CmpSeqBy(_, _, _, _)
CmpSeqBy(a, b, C(_, _), i) ==
    IF i > Len(a) \/ i > Len(b) THEN CmpInt(Len(a), Len(b))
    ELSE LET c == C(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSeqBy(a, b, C, i + 1)
CmpTok(x, y) == IF x.d # y.d THEN (IF x.d THEN -1 ELSE 1)
                ELSE IF x.d THEN CmpNum(NatOfText(x.t), NatOfText(y.t)) ELSE CmpText(x.t, y.t)
CmpKey(f, a, b) ==
    CASE f.at.ty \in {"String", "Path", "FileType"} ->
           IF f.m = mV THEN CmpSeqBy(a, b, LAMBDA p, q : CmpSeqBy(p, q, CmpTok, 1), 1) ELSE CmpText(a, b)
      [] f.at.ty = "List" -> CmpSeqBy(a, b, CmpText, 1)
      [] f.at.ty \in {"Mode", "Boolean"} -> CmpInt(a, b)
      [] OTHER -> CmpNum(a, b)
RECURSIVE CmpKeys(_, _, _, _)
CmpKeys(F, a, b, i) == IF i > Len(F) THEN 0
                       ELSE LET c == CmpKey(F[i], a[i], b[i]) IN IF c # 0 THEN c ELSE CmpKeys(F, a, b, i + 1)
=============================================================================
