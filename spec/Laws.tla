-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the functional core.  The operators of Search and below say     *)
(* what ff has to do; these laws say what the properties demand of the     *)
(* operators: second, independent definitions (denotations of patterns,    *)
(* Python's slices, truth tables), inverses (what is printed reads back),  *)
(* orders, and neutral changes.  TLC checks each of them for all arguments *)
(* of a bounded domain.  A law gives the set of its counterexamples.       *)
(***************************************************************************)
EXTENDS Search
CONSTANT Names, Deep            \* the laws to be checked, and whether with larger domains
VARIABLES law, pc

Texts(A, n) == UNION {[1..k -> A] : k \in 0..n}
Seqs(S) == {Tup(f) : f \in S}
D(a, b) == IF Deep THEN a ELSE b

(* ---- texts, numbers ---- *)
LSplit == {t \in Seqs(Texts({97, SLASH}, D(11, 6))) : JoinWith(SplitOn(t, SLASH), <<SLASH>>) # t \/ \E i \in DOMAIN SplitOn(t, SLASH) : Has(SplitOn(t, SLASH)[i], SLASH)}
LStrip == {t \in Seqs(Texts({97, SP, TAB}, D(8, 5))) :
                                                    \/ Strip(Strip(t)) # Strip(t) \/ ~ContainsText(t, Strip(t))
                                                    \/ Strip(t) # << >> /\ (IsSpace(Strip(t)[1]) \/ IsSpace(Strip(t)[Len(Strip(t))]))}
LCmpText == LET A == Seqs(Texts({65, 97, DOT}, D(4, 3))) IN
            {<<a, b>> \in A \X A :
                                   \/ CmpText(a, b) # -CmpText(b, a) \/ (CmpText(a, b) = 0) # (a = b)
                                   \/ StartsWith(b, a) /\ CmpText(a, b) > 0}
Ints == (-25..25) \cup {99, 100, 101, 999, 1000, 1001, -99, -100, -1000, 65535, 65536, 123456}
LNum == {<<x, y>> \in Ints \X Ints :
           \/ ToInt(Add(FromInt(x), FromInt(y))) # x + y \/ ToInt(Sub(FromInt(x), FromInt(y))) # x - y
           \/ CmpNum(FromInt(x), FromInt(y)) # CmpInt(x, y) \/ ToInt(FromInt(x)) # x
           \/ Add(FromInt(x), FromInt(y)) # FromInt(x + y)
           \/ y \in 0..1000 /\ MulSmall(FromInt(x), y) # FromInt(x * y)
           \/ x >= 0 /\ y > 0 /\ (LET q == DivMod(FromInt(x).d, y) IN MkNat(q[1]) # FromInt(x \div y) \/ q[2] # x % y)}
DigitVal(c) == IF c >= 97 THEN c - 87 ELSE c - 48
LBase == {<<x, b>> \in ((0..D(20000, 600)) \cup {65535, 65536, 1048575}) \X {8, 10, 16} :
            LET t == BaseText(FromInt(x), b) IN FoldLeft(LAMBDA a, c : a * b + DigitVal(c), 0, t) # x \/ (Len(t) > 1 /\ t[1] = 48)}

(* ---- paths ---- *)
PathTexts == Seqs(Texts({97, DOT, SLASH}, D(9, 6)))
TwoSlash == <<SLASH, SLASH>>
LJoin == {p \in PathTexts : ~StartsWith(p, TwoSlash) /\ BaseName(p) # << >> /\ Join(DirName(p), BaseName(p)) # p}
LExt == {p \in PathTexts :
           \/ p # (IF ExtPos(p) = 0 THEN PathX(p) ELSE PathX(p) \o <<DOT>> \o Ext(p))
           \/ Has(Ext(p), SLASH) \/ Has(Ext(p), DOT)
           \/ BaseName(p) # << >> /\ BaseName(PathX(p)) = << >>
           \/ ExtPos(p) > 0 /\ AllIn(BaseName(PathX(p)), LAMBDA c : c = DOT)
           \/ DirName(PathX(p)) # DirName(p)}
Cwd == T("/x/y")
LNorm == {p \in PathTexts :
           LET n == NormPath(p) IN
           \/ NormPath(n) # n \/ AbsPath(Cwd, n) # AbsPath(Cwd, p) \/ IsAbs(n) # IsAbs(p)
           \/ NormPath(AbsPath(Cwd, p)) # AbsPath(Cwd, p)
           \/ n # Dots /\ \E i \in DOMAIN Components(n) : Components(n)[i] = Dots
           \/ Len(n) > 1 /\ n[Len(n)] = SLASH}
LBelow == LET A == {AbsText(c) : c \in Seqs(Texts({T("a"), T("ab"), T("b")}, 3))} IN
          {<<p, q>> \in A \X A :
             \/ ~Below(p, <<SLASH>>) \/ (Below(p, q) /\ Below(q, p)) # (p = q)
             \/ Below(p, q) # (\E k \in 0..Len(Components(p)) : AbsText(Take(Components(p), k)) = q)}

(* ---- globs: the denotation of a token is a set of texts ---- *)
TokDenotes(tok, t) ==
    CASE tok.k = "chr" -> t = <<tok.c>>
      [] tok.k = "any" -> Len(t) = 1 /\ t[1] # SLASH
      [] tok.k = "cls" -> Len(t) = 1 /\ t[1] # SLASH /\ InClass(t[1], tok.r) # tok.neg
      [] tok.k = "star" -> ~Has(t, SLASH)
      [] tok.k = "lead" -> t = << >> \/ (Len(t) > 1 /\ t[Len(t)] = SLASH)
      [] tok.k = "mid" -> t = <<SLASH>> \/ (Len(t) > 2 /\ t[1] = SLASH /\ t[Len(t)] = SLASH)
      [] tok.k = "tail" -> t = << >> \/ (Len(t) > 1 /\ t[1] = SLASH)
RECURSIVE GlobDenotes(_, _)
GlobDenotes(toks, t) ==
    IF toks = << >> THEN t = << >>
    ELSE \E k \in 0..Len(t) : TokDenotes(toks[1], Take(t, k)) /\ GlobDenotes(Tail(toks), Drop(t, k))
GlobPats == Seqs(Texts({97, STAR, QUEST, SLASH}, D(5, 4))) \cup Seqs(Texts({97, LBRACK, RBRACK, BANG, DASH}, D(5, 4)))
GlobTexts == Seqs(Texts({97, 98, SLASH}, D(4, 3))) \cup {<<BANG>>, <<DASH>>, <<LBRACK>>, <<RBRACK>>, <<97, RBRACK>>, <<LBRACK, 97>>, <<97, SLASH, 97, SLASH, 97>>}
LGlob == {<<p, t>> \in GlobPats \X GlobTexts : ValidGlob(ParseGlob(p, TRUE)) /\
            LET k == ParseGlob(p, TRUE).tokens IN GlobMatches(k, t) # GlobDenotes(k, t)}
\* a leading ! inverts, a trailing / only restricts, a pattern without / looks at the last component only
GlobPaths == {t \in GlobTexts : t # << >> /\ t[1] # SLASH /\ t[Len(t)] # SLASH /\ ~ContainsText(t, TwoSlash)}
Says(p, t, d) == GlobTest(ParseGlob(p, TRUE), t, BaseName(t), d)
LGlobLaws == {<<p, t>> \in {q \in Seqs(Texts({97, STAR, SLASH, LBRACK, RBRACK}, D(4, 3))) : q # << >> /\ ValidGlob(ParseGlob(q, TRUE))} \X GlobPaths :
                \/ \E d \in BOOLEAN : Says(<<BANG>> \o p, t, d) # ~Says(p, t, d)
                \/ p[Len(p)] # SLASH /\ (Says(p \o <<SLASH>>, t, FALSE) \/ (Says(p \o <<SLASH>>, t, TRUE) # Says(p, t, TRUE)))
                \/ ~Has(p, SLASH) /\ Says(p, t, FALSE) # Says(p, BaseName(t), FALSE)
                \/ p[1] # SLASH /\ Has(p, SLASH) /\ p[Len(p)] # SLASH /\ Says(<<SLASH>> \o p, t, FALSE) # Says(p, t, FALSE)
                \/ Says(p, t, FALSE) /\ ~Has(p, SLASH) /\ ~Says(<<STAR, STAR, SLASH>> \o p, t, FALSE)}
\* plain text and escaped specials stand for themselves
LGlobPlain == {t \in Seqs(Texts({97, DOT, 92, 94, 36, 43, 40, 123}, 3)) : t # << >> /\ (~Says(t, t, FALSE) \/ \E u \in {<<97>>, <<97, 97>>, <<DOT>>} : u # t /\ Says(t, u, FALSE))}

(* ---- globs written as regular expressions: two modules have to agree ---- *)
RECURSIVE GlobRegex(_)
GlobRegex(p) ==
    IF p = << >> THEN << >>
    ELSE LET tok == GlobToken(p)
             r == CASE tok.k = "chr" -> IF IsAlnum(tok.c) \/ tok.c = SLASH THEN <<tok.c>> ELSE <<BSLASH, tok.c>>
                    [] tok.k = "any" -> T("[^/]")
                    [] tok.k = "star" -> T("[^/]*")
                    [] tok.k = "lead" -> T("(?:.+/)?")
                    [] tok.k = "mid" -> T("(?:/|/.+/)")
                    [] tok.k = "tail" -> T("(?:/.+)?")
                    [] OTHER -> << >>
         IN r \o GlobRegex(Drop(p, tok.n))
LGlobRegex == {<<p, t>> \in {q \in Seqs(Texts({97, STAR, QUEST, SLASH, DOT}, D(5, 4))) : q # << >>} \X Seqs(Texts({97, DOT, SLASH}, 3)) :
                 LET x == ParseRegex(GlobRegex(p)) IN ~x.ok \/ ((Len(t) \in Ends(x.n, t, FALSE, {0})) # GlobMatches(GlobTokens(p), t))}
\* regular expressions: union, concatenation, repetition
RegexAtoms == {T("a"), T("b"), T("."), T("[ab]"), T("[^a]"), T("(?:ab)"), T("a*"), T("a?"), T("a+"), T("(?:a|ba)"), T("a{2}"), T("a{1,2}")}
Full1(r, t) == LET x == ParseRegex(r) IN x.ok /\ Len(t) \in Ends(x.n, t, FALSE, {0})
Grp(r) == T("(?:") \o r \o T(")")
RTexts == Seqs(Texts({97, 98}, D(8, 4)))
LRegex == {<<r, s, t>> \in RegexAtoms \X RegexAtoms \X RTexts :
             \/ Full1(Grp(r) \o Grp(s), t) # (\E k \in 0..Len(t) : Full1(r, Take(t, k)) /\ Full1(s, Drop(t, k)))
             \/ Full1(r \o T("|") \o s, t) # (Full1(r, t) \/ Full1(s, t))
             \/ (LET x == ParseRegex(r) IN RegexFinds(x.n, t, FALSE) # (\E i \in 0..Len(t) : \E k \in i..Len(t) : Full1(r, SubSeq(t, i + 1, k))))}
RECURSIVE Star(_, _)
Star(r, t) == t = << >> \/ \E k \in 1..Len(t) : Full1(r, Take(t, k)) /\ Star(r, Drop(t, k))
LRegexRep == {<<r, t>> \in RegexAtoms \X RTexts :
                \/ Full1(Grp(r) \o T("*"), t) # Star(r, t)
                \/ Full1(Grp(r) \o T("+"), t) # (\E k \in 0..Len(t) : Full1(r, Take(t, k)) /\ Star(r, Drop(t, k)))
                \/ Full1(Grp(r) \o T("?"), t) # (t = << >> \/ Full1(r, t))
                \/ Full1(Grp(r) \o T("{2}"), t) # Full1(Grp(r) \o Grp(r), t)
                \/ Full1(T("^") \o Grp(r) \o T("$"), t) # Full1(r, t)}

(* ---- literals ---- *)
LDuration == {n \in (0..D(90000, 800)) \cup {3599, 3600, 3601, 7322, 86399, 86400, 360000, 1234567} :
                ParseDuration(FormatDuration(FromInt(n))) # Some(FromInt(n))}
LDurationSum == LET A == {T("1s"), T("2m"), T("3h"), T("1d"), T("1w"), T("1M"), T("1y"), T("007s")} IN
                {<<a, b>> \in A \X A : ParseDuration(a \o b)[1] # Add(ParseDuration(a)[1], ParseDuration(b)[1])}
\* a printed size differs from the size by at most half a unit of its last digit
Within(x, y, m) == CmpNum(x, Add(y, m)) <= 0 /\ CmpNum(y, Add(x, m)) <= 0
LSize == {<<n, si>> \in ((0..D(30000, 500)) \cup {n * n * n : n \in 9..D(400, 100)} \cup {1023, 1024, 1025, 999949, 999950, 10188, 10239, 10240, 1048575, 1048576}) \X BOOLEAN :
            \E s \in FormatSize(FromInt(n), si) :
               LET p == ParseSize(s)
                   base == IF si THEN 1000 ELSE 1024
                   unit == IF n < base THEN 1 ELSE IF n \div base < base THEN base ELSE base * base
               IN p = None \/ ~Within(p[1], FromInt(n), FromInt(IF n < base THEN 0 ELSE unit))}
LSizeUnits == {k \in 1..8 :
                            \/ ParseSize(<<49, Units[k]>>) # ParseSize(<<49, Units[k], 105, 66>>)
                            \/ ParseSize(T("2") \o <<Units[k] + 32>>) # ParseSize(<<50, Units[k]>>)
                            \/ k > 1 /\ ParseSize(T("1024") \o <<Units[k - 1]>>) # ParseSize(<<49, Units[k]>>)
                            \/ k > 1 /\ ParseSize(T("1000") \o <<Units[k - 1], 66>>) # ParseSize(<<49, Units[k], 66>>)
                            \/ ParseSize(T("0.5") \o <<Units[k]>>)[1] # (IF k = 1 THEN FromInt(512) ELSE ParseSize(T("512") \o <<Units[k - 1]>>)[1])}
Oct(m) == BaseText(FromInt(m), 8)
ModeSample == {m \in 0..4095 : D(TRUE, m % 7 = 3 \/ m < 520)}
LModeOctal == {m \in ModeSample : ParseMode(Oct(m)) # Some(m) \/ ParseMode(<<EQUALS>> \o Oct(m)) # Some(m)}
Whos == {<<117>>, <<103>>, <<111>>, <<97>>, <<117, 103>>, <<103, 111>>, <<117, 103, 111>>, << >>}
Whats == {T("r"), T("w"), T("x"), T("rw"), T("rwx"), T("s"), T("t"), T("rs")}
WhoBits(w) == IF w = << >> THEN 4095 ELSE OrAll(Tup([i \in DOMAIN w |-> ClassBits(w[i])]))
LModeClause == {<<w, o, x, m>> \in Whos \X {43, 45, 61} \X Whats \X {0, 7, 56, 448, 511, 4095, 365, 2541, 1234} :
                  LET r == ParseMode(Oct(m) \o <<COMMA>> \o w \o <<o>> \o x)
                      b == WhoBits(w) & OrAll(Tup([i \in DOMAIN x |-> PermBits(x[i])]))
                  IN
                     \/ r = None
                     \/ (r[1] & (4095 - WhoBits(w))) # (m & (4095 - WhoBits(w)))     \* only its own classes
                     \/ (o = 43 /\ r[1] # (m | b)) \/ (o = 45 /\ (r[1] & b) # 0) \/ (o = 61 /\ (r[1] & WhoBits(w)) # b)
                     \/ w = <<97>> /\ r # ParseMode(Oct(m) \o <<COMMA, 117, 103, 111, o>> \o x)}
LFileMode == {m \in ModeSample :
                                 \/ Len(FileMode(32768 + m)) # 10
                                 \/ \E k \in 0..11 : FileMode(32768 + m) = FileMode(32768 + (IF Bit(m, 2 ^ k) THEN m - 2 ^ k ELSE m + 2 ^ k))}
LCivil == {d \in (-800..D(60000, 2000)) \cup {11015, 11016, 11017, 47481, 47482} : LET c == CivilOf(d) IN
             \/ ~ValidDate(c[1], c[2], c[3]) \/ DaysOf(c[1], c[2], c[3]) # d
             \/ (LET e == CivilOf(d + 1) IN ~(e = <<c[1], c[2], c[3] + 1>> \/ (e[3] = 1 /\ c[3] = MonthDays(c[1], c[2])
                                                /\ (e = <<c[1], c[2] + 1, 1>> \/ e = <<c[1] + 1, 1, 1>>))))}
Env(tz) == [now |-> 1700000000, tz |-> tz]
LTime == {<<n, tz>> \in {0, 1, 59, 86399, 86400, 951782400, 951868799, 1000000000, 1700000000, 1709164799, 2000000000, -1, -86401} \X {0, 3600, -18000, 19800} :
            ParseTime(FormatTime(FromInt(n), Env(tz)), Env(tz), FALSE) # Some(FromInt(n))}
LClock == {<<s, tz>> \in {i * 997 : i \in 0..86} \X {0, 3600, -18000} :
             LET v == ClockTime(s \div 3600, (s % 3600) \div 60, s % 60, Env(tz)) IN
             LET x == ToInt(v[1]) IN x > 1700000000 \/ x <= 1700000000 - 86400 \/ (x + tz) % 86400 # s}
LAge == {s \in {T("1h"), T("2d"), T("1w3d"), T("0s"), T("5m30s")} :
           Add(ParseTime(s, Env(0), FALSE)[1], ParseDuration(s)[1]) # FromInt(1700000000)}

(* ---- expressions: trees printed and read back ---- *)
World == [env |-> Env(0), nodes |-> << >>, cwd |-> <<SLASH>>, flt |-> << >>]
Leaf == {T("name=p"), T("name=q"), T("name=r")}
RECURSIVE Truth(_, _), TrueTree(_, _), ShowX(_, _)
Truth(f, n) == CASE n.k = "test" -> f[n.v[1]] [] n.k = "not" -> ~Truth(f, n.n)
                 [] n.k = "and" -> \A i \in DOMAIN n.l : Truth(f, n.l[i]) [] n.k = "or" -> \E i \in DOMAIN n.l : Truth(f, n.l[i])
\* abstract trees
L0 == {[o |-> "t", x |-> t] : t \in Leaf}
Grow(S) == {[o |-> "n", a |-> s] : s \in S} \cup {[o |-> c, a |-> p[1], b |-> p[2]] : c \in {"a", "o"}, p \in S \X S}
L1 == L0 \cup Grow(L0)
L2 == L1 \cup {[o |-> "n", a |-> s] : s \in L1} \cup {[o |-> c, a |-> p[1], b |-> p[2]] : c \in {"a", "o"}, p \in (L1 \X L0) \cup (L0 \X L1)}
      \cup (IF Deep THEN {[o |-> c, a |-> p[1], b |-> p[2]] : c \in {"a", "o"}, p \in L1 \X L1} ELSE {})
TrueTree(f, x) == CASE x.o = "t" -> f[x.x[Len(x.x)]] [] x.o = "n" -> ~TrueTree(f, x.a)
                    [] x.o = "a" -> TrueTree(f, x.a) /\ TrueTree(f, x.b) [] x.o = "o" -> TrueTree(f, x.a) \/ TrueTree(f, x.b)
Br(s, style) == (IF style THEN <<T("(")>> ELSE <<T("{{")>>) \o s \o (IF style THEN <<T(")")>> ELSE <<T("}}")>>)
\* with as few brackets as possible; style: which brackets, and whether AND is written
Prio(x) == CASE x.o = "o" -> 1 [] x.o = "a" -> 2 [] OTHER -> 3
ShowX(x, style) ==
    LET arg(y, p) == IF Prio(y) < p THEN Br(ShowX(y, style), style) ELSE ShowX(y, style) IN
    CASE x.o = "t" -> <<x.x>>
      [] x.o = "n" -> <<IF style THEN T("NOT") ELSE T("not")>> \o (IF x.a.o = "t" THEN ShowX(x.a, style) ELSE Br(ShowX(x.a, style), style))
      [] x.o = "a" -> arg(x.a, 2) \o (IF style THEN <<T("AND")>> ELSE << >>) \o arg(x.b, 2)
      [] x.o = "o" -> arg(x.a, 1) \o <<IF style THEN T("OR") ELSE T("or")>> \o arg(x.b, 1)
Valuations == [{112, 113, 114} -> BOOLEAN]
LExpr == {<<x, style>> \in L2 \X BOOLEAN :
            LET p == ParseExpr(World, Default, ShowX(x, style)) IN
            p.errs # {} \/ \E f \in Valuations : Truth(f, p.n) # TrueTree(f, x)}
\* removing or doubling a bracket, an empty operand of OR, a dangling NOT: all rejected
LExprBad == {x \in L1 : LET s == ShowX(x, TRUE) IN
               \E bad \in {<<T("(")>> \o s, s \o <<T(")")>>, s \o <<T("OR")>>, <<T("OR")>> \o s, s \o <<T("NOT")>>, s \o Br(<< >>, TRUE),
                           <<T("NOT"), T("NOT")>> \o s, Br(s \o <<T("OR")>>, TRUE)} : ParseExpr(World, Default, bad).errs = {}}

(* ---- slices ---- *)
Bounds == {None} \cup {Some(i) : i \in -5..5}
Opts(r) == [Default EXCEPT !.limit = Some(r)]
Pos(x, n) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < 0 THEN 0 ELSE IF y > n THEN n ELSE y
LSlice == {<<a, b, n>> \in (-5..5) \X Bounds \X (0..4) :
             LET s == SliceOf(Opts(<<a, b>>), n) IN
             \E i \in 1..n : (i >= s[1] /\ i <= s[2]) # (i - 1 >= Pos(a, n) /\ (b = None \/ i - 1 < Pos(b[1], n)))}
LPages == {<<z, n>> \in (1..4) \X (0..9) :
             \E i \in 1..n : Cardinality({p \in 0..9 : LET s == SliceOf(Opts(ParseSlice(IntText(z) \o <<COMMA>> \o IntText(p))[1]), n) IN i >= s[1] /\ i <= s[2]}) # 1}
\* groups cut by a slice: all together as many as the slice has
Cut(sizes) == Tup([i \in DOMAIN sizes |-> Tup([j \in 1..sizes[i] |-> <<i, j>>])])
LGroups == {<<g, a, b>> \in Seqs(Texts(1..3, 3)) \X (-3..3) \X ({None} \cup {Some(i) : i \in -3..4}) :
              LET n == FoldLeft(LAMBDA x, y : x + y, 0, g) s == SliceOf(Opts(<<a, b>>), n) IN
              Taken(Sliced(Opts(<<a, b>>), Cut(g))) # (IF s[2] >= s[1] THEN s[2] - s[1] + 1 ELSE 0)}

(* ---- sort keys are total preorders; with digits as numbers ---- *)
Names1 == {t \in Seqs(Texts({97, 66, 49, 48, DOT}, D(3, 2))) : t # << >>} \cup {T("a10"), T("a9"), T("a09"), T("a.9"), T("a.b.c"), T("a1b2"), T("a01b"), T(".a1"), T("a.B10"), T("a/b"), T("a/.b"), T("a.x/b")}
KeyField(ty, m) == [err |-> {}, at |-> [BadAttr EXCEPT !.ty = ty], w |-> None, m |-> m]
KeyOf(ty, m, t) == LET s == SortText(ty, t) IN IF m = mV THEN VersionKey(s) ELSE s
LOrder(ty, m) == LET F == KeyField(ty, m)
                     K == TLCEval([t \in Names1 |-> KeyOf(ty, m, t)])
                     C == TLCEval([p \in Names1 \X Names1 |-> CmpKey(F, K[p[1]], K[p[2]])]) IN
                 {<<a, b, c>> \in Names1 \X Names1 \X Names1 :
                    \/ C[<<a, b>>] # -C[<<b, a>>] \/ C[<<a, a>>] # 0
                    \/ C[<<a, b>>] <= 0 /\ C[<<b, c>>] <= 0 /\ C[<<a, c>>] > 0}
LVersion == LET F == KeyField("String", mV) IN
            {<<i, j>> \in {0, 1, 2, 9, 10, 11, 99, 100} \X {0, 1, 2, 9, 10, 11, 99, 100} :
               \/ CmpKey(F, KeyOf("String", mV, T("a") \o IntText(i) \o T("b")), KeyOf("String", mV, T("A") \o IntText(j) \o T("B"))) # CmpInt(i, j)
               \/ CmpKey(F, KeyOf("String", mV, T("a") \o IntText(i) \o T(".x")), KeyOf("String", mV, T("a") \o IntText(j) \o T(".x"))) # CmpInt(i, j)}
LCase == {t \in Names1 : CmpKey(KeyField("Path", 0), KeyOf("Path", 0, t), KeyOf("Path", 0, Upper(t))) # 0
                         \/ CmpKey(KeyField("Path", 0), KeyOf("Path", 0, t), KeyOf("Path", 0, <<DOT>> \o t)) # 0}

(* ---- command lines ---- *)
Flags == {OptionTab[s] : s \in {x \in DOMAIN OptionTab : OptionTab[x].a = "const"}}
ShortFlags == {s \in DOMAIN OptionTab : Len(s) = 2 /\ OptionTab[s].a = "const"}
AnyFlags == {s \in DOMAIN OptionTab : OptionTab[s].a = "const"}
Q(ws) == ParseWords(ws, Default)
LBundle == {<<a, b>> \in ShortFlags \X ShortFlags : Q(<<a \o Drop(b, 1)>>) # Q(<<a, b>>)}
LCommute == {<<a, b>> \in AnyFlags \X AnyFlags :
               \/ OptionTab[a].d # OptionTab[b].d /\ Q(<<a, b>>) # Q(<<b, a>>)
               \/ OptionTab[a].d = OptionTab[b].d /\ Q(<<a, b>>) # Q(<<b>>)}
Sample(o) == CASE o.t = "jobs" -> T("3") [] o.t = "ranges" -> T("1-2,4-") [] o.t = "case" -> T("ignore") [] o.t = "halt" -> T("soon")
               [] o.t = "color" -> T("never") [] o.t = "slice" -> T("1:2") [] OTHER -> T("path,name")
ArgOpts == {s \in DOMAIN OptionTab : TakesArg(OptionTab[s])}
LAttached == {s \in ArgOpts : LET v == Sample(OptionTab[s]) IN
                \/ ~Q(<<s, v>>).ok
                \/ Len(s) = 2 /\ Q(<<s \o v>>) # Q(<<s, v>>)
                \/ IsLong(s) /\ Q(<<s \o <<EQUALS>> \o v>>) # Q(<<s, v>>)
                \/ \E f \in ShortFlags : Len(s) = 2 /\ OptionTab[f].d # OptionTab[s].d /\ Q(<<f \o Drop(s, 1) \o v>>) # Q(<<s, v, f>>)
                \/ OptionTab[s].a = "store" /\ Q(<<s>>).ok
                \/ OptionTab[s].a = "append" /\ Q(<<s, v, s, T("z")>>).o[OptionTab[s].d] # <<v, T("z")>>
                \/ OptionTab[s].a = "store" /\ OptionTab[s].t = "text" /\ Q(<<s, T("z"), s, v>>) # Q(<<s, v>>)}
RestOpts == {s \in DOMAIN OptionTab : OptionTab[s].a = "rest"}
LRest == {<<s, w>> \in RestOpts \X (DOMAIN OptionTab \cup {T("--nosuch"), T("a=b"), T("-")}) :
            LET q == Q(<<s, T("cmd"), w>>) IN ~q.ok \/ q.o # [Default EXCEPT ![OptionTab[s].d] = Some(<<T("cmd"), w>>)]}
LRange == {<<a, b>> \in (0..4) \X (0..4) :
             LET lo == IF a < b THEN a ELSE b hi == IF a < b THEN b ELSE a
                 r == ParseRange(IntText(a) \o <<DASH>> \o IntText(b)) IN
             r = None \/ \E d \in 0..5 : InRange(d, r[1]) # (d >= lo /\ d <= hi)}

(* ---- ignore rules ---- *)
IRules == {T("a"), T("*"), T("!a"), T("a/"), T("/a"), T("!/b"), T("b/a"), T("# c"), T(""), T("  "), T("[z-a]")}
IgDecides(lines, p, d) ==
    LET rs == [dir |-> <<SLASH>>, file |-> << >>, rules |-> Rules(lines)]
        k == LastHit(rs, [abs |-> p], BaseName(p), d)
    IN IF k = 0 THEN "none" ELSE IF rs.rules[k].include THEN "drop" ELSE "keep"
IPaths == {T("/a"), T("/b"), T("/b/a"), T("/a/b")}
LIgnore == {<<x, p>> \in Seqs(Texts(IRules, D(3, 2))) \X IPaths :
              \E d \in BOOLEAN :
                 LET z == IgDecides(x, p, d) IN
                 \* rules that say nothing, anywhere
                 \/ \E i \in 0..Len(x) : \E n \in {T("# x"), << >>, T(" "), T("[z-a]"), T("nosuch")} : IgDecides(Take(x, i) \o <<n>> \o Drop(x, i), p, d) # z
                 \* the last rule that matches decides
                 \/ IgDecides(Append(x, T("*")), p, d) # "drop" \/ IgDecides(Append(x, T("!*")), p, d) # "keep"
                 \/ \E r \in IRules : LET one == IgDecides(<<r>>, p, d) IN IgDecides(Append(x, r), p, d) # (IF one = "none" THEN z ELSE one)}

Counter(l) ==
    CASE l = "split" -> LSplit [] l = "strip" -> LStrip [] l = "cmptext" -> LCmpText [] l = "num" -> LNum [] l = "base" -> LBase
      [] l = "join" -> LJoin [] l = "ext" -> LExt [] l = "norm" -> LNorm [] l = "below" -> LBelow
      [] l = "glob" -> LGlob [] l = "globlaws" -> LGlobLaws [] l = "globplain" -> LGlobPlain [] l = "globregex" -> LGlobRegex
      [] l = "regex" -> LRegex [] l = "regexrep" -> LRegexRep
      [] l = "duration" -> LDuration [] l = "durationsum" -> LDurationSum [] l = "size" -> LSize [] l = "sizeunits" -> LSizeUnits
      [] l = "modeoctal" -> LModeOctal [] l = "modeclause" -> LModeClause [] l = "filemode" -> LFileMode
      [] l = "civil" -> LCivil [] l = "time" -> LTime [] l = "clock" -> LClock [] l = "age" -> LAge
      [] l = "expr" -> LExpr [] l = "exprbad" -> LExprBad
      [] l = "slice" -> LSlice [] l = "pages" -> LPages [] l = "groups" -> LGroups
      [] l = "order" -> LOrder("String", 0) [] l = "orderpath" -> LOrder("Path", 0) [] l = "orderv" -> LOrder("String", mV) [] l = "orderpathv" -> LOrder("Path", mV)
      [] l = "version" -> LVersion [] l = "case" -> LCase
      [] l = "bundle" -> LBundle [] l = "commute" -> LCommute [] l = "attached" -> LAttached [] l = "rest" -> LRest [] l = "range" -> LRange
      [] l = "ignore" -> LIgnore
Init == law \in Names /\ pc = 0
Next == pc = 0 /\ pc' = 1 /\ UNCHANGED law
Spec == Init /\ [][Next]_<<law, pc>>
Lawful == pc = 1 => LET c == Counter(law) IN IF c = {} THEN TRUE ELSE PrintT(<<"COUNTEREXAMPLE", law, CHOOSE x \in c : TRUE, Cardinality(c)>>) /\ FALSE
=============================================================================
