-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of code points.  Undecodable bytes of file names    *)
(* are surrogate escapes (16#DC80..16#DCFF), exactly as Python sees them.  *)
(* Optional values are sequences of length 0 (missing) or 1 (present).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

None == << >>
Some(x) == <<x>>
IsSome(o) == Len(o) = 1
The(o) == o[1]

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* (TLCEval makes TLC tabulate the function once.)
AsciiIndex == TLCEval([c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
                 CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c])
\* The text of a (printable) TLA+ string.
Tup(f) == f \o << >>          \* makes TLC evaluate a function on 1..n to a tuple, once
T(s) == Tup([i \in 1..Len(s) |-> AsciiIndex[SubSeq(s, i, i)] + 31])

NUL == 0
TAB == 9
NL == 10
SP == 32
SLASH == 47
DOT == 46
BANG == 33
HASH == 35
STAR == 42
QUEST == 63
LBRACK == 91
RBRACK == 93
BSLASH == 92
CARET == 94
DASH == 45
LBRACE == 123
RBRACE == 125
COMMA == 44
COLON == 58
EQUALS == 61
PERCENT == 37
UNDER == 95

IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
\* white space in the sense of str.strip() and \s, as far as the scenarios use it
IsSpace(c) == c \in 9..13 \/ c \in 28..32 \/ c = 133 \/ c = 160

\* The case mapping (ASCII, Latin-1, Greek without sigma, Cyrillic).
LowerC(c) == IF c < 65 THEN c
             ELSE IF c <= 90 THEN c + 32
             ELSE IF c < 192 THEN c
             ELSE IF c <= 222 THEN (IF c = 215 THEN c ELSE c + 32)
             ELSE IF c \in 913..937 THEN (IF c = 931 \/ c = 930 THEN c ELSE c + 32)
             ELSE IF c \in 1040..1071 THEN c + 32
             ELSE IF c \in 1024..1039 THEN c + 80
             ELSE c
Lower(t) == Tup([i \in DOMAIN t |-> LowerC(t[i])])
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
Upper(t) == Tup([i \in DOMAIN t |-> UpperC(t[i])])       \* only used for keywords

Drop(t, n) == SubSeq(t, n + 1, Len(t))
Take(t, n) == SubSeq(t, 1, n)
StartsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(p) <= Len(t) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
ContainsText(t, p) == \E i \in 0..(Len(t) - Len(p)) : \A k \in 1..Len(p) : t[i + k] = p[k]
Has(t, c) == \E i \in DOMAIN t : t[i] = c
Positions(t, c) == {i \in DOMAIN t : t[i] = c}
\* first / last position of a character, 0 if there is none
FirstPos(t, c) == LET P == Positions(t, c) IN IF P = {} THEN 0 ELSE Min(P)
LastPos(t, c) == LET P == Positions(t, c) IN IF P = {} THEN 0 ELSE Max(P)
FirstOfPos(t, C) == LET P == {i \in DOMAIN t : t[i] \in C} IN IF P = {} THEN 0 ELSE Min(P)

\* str.split(c): the parts between the occurrences of c, always at least one.
SplitOn(t, c) ==
    LET P == SetToSortSeq(Positions(t, c), <)
        n == Len(P)
    IN Tup([k \in 1..(n + 1) |->
          SubSeq(t, (IF k = 1 THEN 1 ELSE P[k - 1] + 1), (IF k = n + 1 THEN Len(t) ELSE P[k] - 1))])
JoinWith(parts, sep) ==
    IF parts = << >> THEN << >>
    ELSE FlattenSeq(Tup([i \in 1..(2 * Len(parts) - 1) |->
                        IF i % 2 = 1 THEN parts[(i + 1) \div 2] ELSE sep]))

StripStart(t, C(_)) ==
    LET P == {i \in DOMAIN t : ~C(t[i])} IN IF P = {} THEN << >> ELSE Drop(t, Min(P) - 1)
StripEnd(t, C(_)) ==
    LET P == {i \in DOMAIN t : ~C(t[i])} IN IF P = {} THEN << >> ELSE Take(t, Max(P))
Strip(t) == StripEnd(StripStart(t, IsSpace), IsSpace)
StripChar(t, c) == StripEnd(StripStart(t, LAMBDA x : x = c), LAMBDA x : x = c)
LStripChar(t, c) == StripStart(t, LAMBDA x : x = c)

AllIn(t, P(_)) == \A i \in DOMAIN t : P(t[i])
AllDigits(t) == t # << >> /\ AllIn(t, IsDigit)

\* Lexicographic comparison of sequences of integers: -1, 0 or 1.
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpText(a, b) ==
    LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..m : a[i] # b[i]}
    IN IF D = {} THEN CmpInt(Len(a), Len(b))
       ELSE LET i == Min(D) IN CmpInt(a[i], b[i])

\* Bags as sequences.
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ LET A == {a[i] : i \in DOMAIN a} B == {b[i] : i \in DOMAIN b}
       IN /\ A = B
          /\ Cardinality(A) = Len(a) \/ \A x \in A : CountIn(a, x) = CountIn(b, x)
WithinBag(a, b) ==         \* a is contained in b
    LET A == {a[i] : i \in DOMAIN a} B == {b[i] : i \in DOMAIN b}
    IN /\ A \subseteq B
       /\ Cardinality(A) = Len(a) \/ \A x \in A : CountIn(a, x) <= CountIn(b, x)
MapSeq(s, F(_)) == Tup([i \in DOMAIN s |-> F(s[i])])
\* the elements for which F returns a value, in order
FilterMap(s, F(_)) ==
    FlattenSeq(Tup([i \in DOMAIN s |-> F(s[i])]))
=============================================================================
