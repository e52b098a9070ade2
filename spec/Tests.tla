-------------------------------- MODULE Tests --------------------------------
(***************************************************************************)
(* Search expressions: parsing single tests and whole expressions, and     *)
(* their truth for an entry.                                               *)
(***************************************************************************)
EXTENDS Attrs, Regex

EX_USAGE == 2
EX_PROCESS == 4
EX_PLUGIN == 10
EX_ATTRIBUTE == 11
EX_EXPRESSION == 12

Operators(ty) == CASE ty \in {"String", "Path", "List"} -> {"=", ":", "~", "%"}
                   [] ty = "FileType" -> {"="}
                   [] ty = "Boolean" -> {"="}
                   [] ty = "Mode" -> {"=", ":", "~"}
                   [] OTHER -> {"+=", "-=", "+", "-", "="}
IsStringType(ty) == ty \in {"String", "Path", "List"}
TypeChoices == {T(s) : s \in {"d", "directory", "f", "file", "l", "symlink", "s", "socket", "p", "pipe", "fifo",
                              "char", "block", "door", "port", "whiteout", "other"}}
CanonType(t) == LET l == Lower(t) IN
    CASE l = T("d") -> T("directory") [] l = T("f") -> T("file") [] l = T("l") -> T("symlink")
      [] l = T("s") -> T("socket") [] l \in {T("p"), T("pipe")} -> T("fifo") [] OTHER -> l

(* ---- the parts of a test: <<attribute, operator, reference or none, value>> or << >> ---- *)
OpAt(t, i) ==       \* operator at position i: [ok, op, n]
    LET c == At(t, i) d == At(t, i + 1) IN
    CASE c = EQUALS -> [op |-> "=", n |-> 1]
      [] c = COLON -> [op |-> ":", n |-> 1]
      [] c = 126 -> [op |-> "~", n |-> 1]
      [] c = PERCENT -> [op |-> "%", n |-> 1]
      [] c \in {62, 43} /\ d = EQUALS -> [op |-> "+=", n |-> 2]
      [] c \in {60, 45} /\ d = EQUALS -> [op |-> "-=", n |-> 2]
      [] c \in {62, 43} -> [op |-> "+", n |-> 1]
      [] c \in {60, 45} -> [op |-> "-", n |-> 1]
      [] OTHER -> [op |-> "", n |-> 0]
SkipSpace(t) == StripStart(t, IsSpace)
WordDot(t) ==       \* \w+ or \w+.\w+
    LET P == SplitOn(t, DOT) IN Len(P) \in {1, 2} /\ \A k \in DOMAIN P : P[k] # << >> /\ AllIn(P[k], IsWordC)
SplitTest(text) ==
    LET t == SkipSpace(text)
        ne == LET P == {i \in DOMAIN t : ~(IsWordC(t[i]) \/ t[i] = DOT)} IN IF P = {} THEN 0 ELSE Min(P) - 1
        name == Take(t, ne)
        rest == SkipSpace(Drop(t, ne))
        op2 == OpAt(rest, 1)
        op == IF op2.n = 2 /\ Len(rest) = 2 THEN [op |-> IF op2.op = "+=" THEN "+" ELSE "-", n |-> 1] ELSE op2
        after == Drop(rest, op.n)
        close == FirstPos(after, RBRACE)
        isref == /\ after # << >> /\ after[1] = LBRACE /\ close > 0 /\ close < Len(after)
                 /\ LET r == SubSeq(after, 2, close - 1) IN r = << >> \/ WordDot(r)
        raw == IF isref THEN Drop(after, close) ELSE after
        stripped == SkipSpace(raw)
        value == IF stripped = << >> /\ raw # << >> THEN <<raw[Len(raw)]>> ELSE stripped
    IN IF ne = 0 \/ ~WordDot(name) \/ op.n = 0 \/ value = << >> THEN << >>
       ELSE <<name, op.op, IF isref THEN Some(SubSeq(after, 2, close - 1)) ELSE None, value>>

(* ---- one test: [errs, at, op, ty, v, ic] ---- *)
TestErr(c) == [k |-> "test", errs |-> {c}, at |-> BadAttr, op |-> "", ty |-> "", v |-> 0, ic |-> FALSE]
TestOk(at, op, v, ic) == [k |-> "test", errs |-> {}, at |-> at, op |-> op, ty |-> at.ty, v |-> v, ic |-> ic]
ParseLiteral(ty, t, env) ==
    CASE ty = "Number" -> ParseNumber(t)
      [] ty = "Size" -> ParseSize(t)
      [] ty = "Duration" -> ParseDuration(t)
      [] ty = "Time" -> ParseTime(t, env, FALSE)
      [] ty = "Mode" -> ParseMode(t)
      [] ty = "Boolean" -> ParseBoolean(t)
      [] ty = "FileType" -> IF t \in TypeChoices THEN Some(CanonType(t)) ELSE None
      [] OTHER -> Some(t)
LiteralErr(ty) == IF ty = "FileType" THEN EX_EXPRESSION ELSE EX_USAGE
Numeric(ty) == ty \in {"Number", "Size", "Duration", "Time"}
Comparable(a, b) == \/ Numeric(a) /\ Numeric(b)
                    \/ a \in {"String", "Path"} /\ b \in {"String", "Path"}
                    \/ a = b
\* the entry a reference stands for
RefEntry(W, O, path) ==
    LET given == IF O.abs THEN AbsPath(W.cwd, path) ELSE path
        abs == AbsPath(W.cwd, path)
        D == SelectSeq(O.dirs, LAMBDA d : StartsWith(abs, AbsPath(W.cwd, d) \o <<SLASH>>))
        i == FindNode(W, path, FALSE)
        inside == D # << >>
        around == IF DirName(given) = << >> THEN Dots ELSE DirName(given)
        absroot == AbsPath(W.cwd, IF inside THEN D[1] ELSE around)
        root == IF inside THEN (IF O.abs THEN absroot ELSE D[1]) ELSE around
        rel == IF inside THEN Drop(abs, Len(absroot) + 1) ELSE BaseName(given)
        start == FindNode(W, absroot, TRUE)
    IN IF i = 0 \/ (O.follow /\ FollowNode(W, i) = 0) THEN None
       ELSE Some(MkEntry(W, root, absroot, start, rel, i, O.follow, << >>))
\* prepare a string pattern
StringTest(at, op, val, O) ==
    LET ic == CASE O.case = "ignore" -> TRUE [] O.case = "sensitive" -> FALSE [] OTHER -> val = Lower(val)
        lv == IF ic THEN Lower(val) ELSE val
    IN CASE op = "~" -> LET r == ParseRegex(val) IN IF r.ok THEN TestOk(at, op, r.n, ic) ELSE TestErr(EX_EXPRESSION)
         [] op = "%" -> LET g == ParseGlob(lv, at.ty = "Path") IN IF ValidGlob(g) THEN TestOk(at, op, g, ic) ELSE TestErr(EX_EXPRESSION)
         [] OTHER -> TestOk(at, op, lv, ic)
ParseTest(W, O, text) ==
    LET sp == SplitTest(text) IN
    IF sp = << >> THEN TestErr(EX_EXPRESSION)
    ELSE LET at == ResolveAttr(sp[1]) op == sp[2] ref == sp[3] val == sp[4] IN
    IF ~at.ok THEN TestErr(EX_ATTRIBUTE)
    ELSE IF op \notin Operators(at.ty) THEN TestErr(EX_EXPRESSION)
    ELSE IF ref = None
    THEN LET lit == ParseLiteral(at.ty, val, W.env) IN
         IF lit = None THEN TestErr(LiteralErr(at.ty))
         ELSE IF IsStringType(at.ty) THEN StringTest(at, op, val, O)
         ELSE TestOk(at, op, lit[1], FALSE)
    ELSE LET rat == IF ref[1] = << >> THEN at ELSE ResolveAttr(ref[1]) IN
         IF ~rat.ok \/ ~Comparable(at.ty, rat.ty) \/ at.ty = "List" THEN TestErr(EX_USAGE)
         ELSE LET re == RefEntry(W, O, val) IN
              IF re = None THEN TestErr(EX_USAGE)
              ELSE LET rv == AttrValue(W, re[1], rat) IN
                   IF rv = None THEN TestErr(EX_USAGE)
                   ELSE IF IsStringType(at.ty) THEN StringTest(at, op, rv[1], O)
                   ELSE TestOk(at, op, rv[1], FALSE)

(* ---- truth of a test for a value ---- *)
StringHolds(t, s, path, isdir) ==
    LET x == IF t.ic /\ t.op # "~" THEN Lower(s) ELSE s IN
    CASE t.op = "=" -> x = t.v
      [] t.op = ":" -> ContainsText(x, t.v)
      [] t.op = "~" -> RegexFinds(t.v, x, t.ic)
      [] t.op = "%" -> GlobTest(t.v, x, IF path THEN BaseName(x) ELSE x, path /\ isdir)
Holds(t, v, isdir) ==
    CASE t.ty = "String" -> StringHolds(t, v, FALSE, FALSE)
      [] t.ty = "Path" -> StringHolds(t, v, TRUE, isdir)
      [] t.ty = "List" -> \E i \in DOMAIN v : StringHolds(t, v[i], FALSE, FALSE)
      [] t.ty = "FileType" -> v = t.v
      [] t.ty = "Boolean" -> v = t.v
      [] t.ty = "Mode" -> LET a == v % 4096 b == t.v % 4096 IN
                          (CASE t.op = "=" -> a = b [] t.op = ":" -> (a & b) = b [] t.op = "~" -> (a & b) # 0)
      [] OTHER -> LET c == CmpNum(v, t.v) IN
                  CASE t.op = "=" -> c = 0 [] t.op = "+=" -> c >= 0 [] t.op = "-=" -> c <= 0
                    [] t.op = "+" -> c > 0 [] t.op = "-" -> c < 0
TestHolds(W, e, t) ==
    LET v == AttrValue(W, e, t.at) IN IsSome(v) /\ Holds(t, v[1], IsDirEntry(W, e))

(* ---- expressions: trees of or/and/not/test nodes ---- *)
kAND == T("AND")
kOR == T("OR")
kNOT == T("NOT")
Opening == {T("("), T("{{")}
Closing == {T(")"), T("}}")}
Keyword(tok) == LET u == Upper(tok) IN IF u \in {kAND, kOR, kNOT} THEN u ELSE << >>
XErr(codes) == [errs |-> codes, n |-> [k |-> "none"], p |-> 0]
XOk(n, p, codes) == [errs |-> codes, n |-> n, p |-> p]
\* errs collects the errors of all tests; a structural error is a usage error.
RECURSIVE XOr(_, _, _, _, _, _), XAnd(_, _, _, _, _, _), XTerm(_, _, _, _)
\* disjunction starting at p; alts so far; depth > 0 inside of brackets
XOr(W, O, toks, p, alts, codes) ==
    LET a == XAnd(W, O, toks, p, << >>, {}) IN
    IF a.p = 0 THEN XErr(codes \cup a.errs)
    ELSE LET now == Append(alts, a.n) c == codes \cup a.errs IN
         IF a.p <= Len(toks) /\ Keyword(toks[a.p]) = kOR THEN XOr(W, O, toks, a.p + 1, now, c)
         ELSE XOk([k |-> "or", l |-> now], a.p, c)
\* conjunction up to OR, a closing bracket or the end; it must not be empty
XAnd(W, O, toks, p, items, codes) ==
    IF p > Len(toks) \/ toks[p] \in Closing \/ Keyword(toks[p]) = kOR
    THEN IF items = << >> THEN XErr(codes \cup {EX_USAGE}) ELSE XOk([k |-> "and", l |-> items], p, codes)
    ELSE IF Keyword(toks[p]) = kAND THEN XAnd(W, O, toks, p + 1, items, codes)
    ELSE LET t == XTerm(W, O, toks, p) IN
         IF t.p = 0 THEN XErr(codes \cup t.errs)
         ELSE XAnd(W, O, toks, t.p, Append(items, t.n), codes \cup t.errs)
XTerm(W, O, toks, p) ==
    IF toks[p] \in Opening
    THEN LET s == XOr(W, O, toks, p + 1, << >>, {}) IN
         IF s.p = 0 THEN s
         ELSE IF s.p > Len(toks) \/ toks[s.p] \notin Closing THEN XErr(s.errs \cup {EX_USAGE})
         ELSE XOk(s.n, s.p + 1, s.errs)
    ELSE IF Keyword(toks[p]) = kNOT
    THEN IF p = Len(toks) \/ toks[p + 1] \in Closing \/ Keyword(toks[p + 1]) # << >> THEN XErr({EX_USAGE})
         ELSE LET t == XTerm(W, O, toks, p + 1) IN
              IF t.p = 0 THEN t ELSE XOk([k |-> "not", n |-> t.n], t.p, t.errs)
    ELSE LET t == ParseTest(W, O, toks[p]) IN XOk(t, p + 1, t.errs)
\* [errs, n]: no tests match everything; of several errors any one may be reported
IsTestTok(tok) == tok \notin Opening \cup Closing /\ Keyword(tok) = << >>
ParseExpr(W, O, toks) ==
    LET all == UNION {IF IsTestTok(toks[i]) THEN ParseTest(W, O, toks[i]).errs ELSE {} : i \in DOMAIN toks} IN
    IF toks = << >> THEN [errs |-> {}, n |-> [k |-> "and", l |-> << >>]]
    ELSE LET x == XOr(W, O, toks, 1, << >>, {}) IN
         IF x.p = 0 THEN [errs |-> x.errs \cup all, n |-> x.n]
         ELSE IF x.p <= Len(toks) THEN [errs |-> all \cup {EX_USAGE}, n |-> x.n]
         ELSE [errs |-> x.errs, n |-> x.n]
RECURSIVE Eval(_, _, _)
Eval(W, e, n) ==
    CASE n.k = "test" -> TestHolds(W, e, n)
      [] n.k = "not" -> ~Eval(W, e, n.n)
      [] n.k = "and" -> \A i \in DOMAIN n.l : Eval(W, e, n.l[i])
      [] n.k = "or" -> \E i \in DOMAIN n.l : Eval(W, e, n.l[i])
RECURSIVE UsesIgnore(_)
UsesIgnore(n) == CASE n.k = "test" -> n.at.p = "ignore" [] n.k = "not" -> UsesIgnore(n.n)
                   [] n.k \in {"and", "or"} -> \E i \in DOMAIN n.l : UsesIgnore(n.l[i]) [] OTHER -> FALSE
=============================================================================
