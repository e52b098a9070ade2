------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The part of Python's regular expressions that the scenarios use.        *)
(* Expressions are parsed into a syntax tree; matching computes the set of *)
(* end positions for a set of start positions, so search() is just: is     *)
(* there any.                                                              *)
(***************************************************************************)
EXTENDS Text

IsWordC(c) == \/ IsAlnum(c) \/ c = UNDER
              \/ c \in {170, 178, 179, 181, 185, 186, 188, 189, 190}
              \/ (c >= 192 /\ c <= 591 /\ c \notin {215, 247})
              \/ c \in 913..1023 \/ c \in 1024..1153 \/ c \in 12353..12438 \/ c \in 19968..40959
UpperOf(c) == IF IsLower(c) THEN c - 32
              ELSE IF c \in 224..254 /\ c # 247 /\ c # 223 THEN c - 32
              ELSE IF c \in 945..969 /\ c # 962 THEN c - 32
              ELSE IF c \in 1072..1103 THEN c - 32
              ELSE IF c \in 1104..1119 THEN c - 80
              ELSE c
Variants(c) == {c, LowerC(c), UpperOf(c)}

Chr(c) == [k |-> "chr", c |-> c]
Fail(p) == [ok |-> FALSE, n |-> [k |-> "none"], p |-> p]
Ok(n, p) == [ok |-> TRUE, n |-> n, p |-> p]
At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1

Named(c) ==     \* \d \D \w \W \s \S as class items
    CASE c = 100 -> {"d"} [] c = 68 -> {"D"} [] c = 119 -> {"w"} [] c = 87 -> {"W"}
      [] c = 115 -> {"s"} [] c = 83 -> {"S"}
IsNamed(c) == c \in {100, 68, 119, 87, 115, 83}
InNamed(c, s) ==
    CASE s = "d" -> IsDigit(c) [] s = "D" -> ~IsDigit(c)
      [] s = "w" -> IsWordC(c) [] s = "W" -> ~IsWordC(c)
      [] s = "s" -> IsSpace(c) [] s = "S" -> ~IsSpace(c)
EscChar(c) == CASE c = 110 -> NL [] c = 116 -> TAB [] c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 114 -> 13 [] c = 118 -> 11 [] OTHER -> c
\* other letters have no meaning after a backslash (b is a backspace in a class, a boundary outside)
BadEsc(c) == (IsLower(c) \/ IsLower(c + 32)) /\ c \notin {110, 116, 97, 98, 102, 114, 118}

\* a class body starting at p (after [ and ^): ranges R and named sets N until ]
RECURSIVE ParseClass(_, _, _, _, _)
ParseClass(t, p, first, R, N) ==
    IF p > Len(t) THEN [ok |-> FALSE, R |-> R, N |-> N, p |-> p]
    ELSE IF t[p] = RBRACK /\ ~first THEN [ok |-> TRUE, R |-> R, N |-> N, p |-> p + 1]
    ELSE IF t[p] = BSLASH /\ p < Len(t) /\ IsNamed(t[p + 1])
         THEN ParseClass(t, p + 2, FALSE, R, N \cup Named(t[p + 1]))
    ELSE IF t[p] = BSLASH /\ p < Len(t) /\ BadEsc(t[p + 1]) THEN [ok |-> FALSE, R |-> R, N |-> N, p |-> p]
    ELSE LET esc == t[p] = BSLASH
             lo == IF esc THEN EscChar(At(t, p + 1)) ELSE t[p]
             q == IF esc THEN p + 2 ELSE p + 1
         IN IF At(t, q) = DASH /\ q + 1 <= Len(t) /\ t[q + 1] # RBRACK
            THEN LET esc2 == t[q + 1] = BSLASH
                     hi == IF esc2 THEN EscChar(At(t, q + 2)) ELSE t[q + 1]
                     r == IF esc2 THEN q + 3 ELSE q + 2
                 IN IF hi < lo THEN [ok |-> FALSE, R |-> R, N |-> N, p |-> p]
                    ELSE ParseClass(t, r, FALSE, R \cup {<<lo, hi>>}, N)
            ELSE ParseClass(t, q, FALSE, R \cup {<<lo, lo>>}, N)

\* {m}, {m,}, {,n} or {m,n} at position p: <<min, max (or -1), position after it>>, or << >>
ParseBraces(t, p) ==
    LET e == LET P == {i \in p..Len(t) : t[i] = RBRACE} IN IF P = {} THEN 0 ELSE Min(P)
        body == SubSeq(t, p + 1, e - 1)
        parts == SplitOn(body, COMMA)
        num(d) == FoldLeft(LAMBDA a, x : a * 10 + (x - 48), 0, d)
    IN IF e = 0 \/ Len(parts) > 2 \/ body = << >> THEN << >>
       ELSE IF \E i \in DOMAIN parts : ~AllIn(parts[i], IsDigit) THEN << >>
       ELSE IF Len(parts) = 1 THEN <<num(parts[1]), num(parts[1]), e + 1>>
       ELSE <<num(parts[1]), IF parts[2] = << >> THEN -1 ELSE num(parts[2]), e + 1>>

RECURSIVE ParseAlt(_, _), ParseAltRest(_, _, _), ParseSeq(_, _, _), ParseAtom(_, _), ParseQuant(_, _)
ParseAlt(t, p) == LET s == ParseSeq(t, p, << >>) IN IF ~s.ok THEN s ELSE ParseAltRest(t, s.p, <<s.n>>)
ParseAltRest(t, p, alts) ==
    IF At(t, p) = 124
    THEN LET s == ParseSeq(t, p + 1, << >>) IN IF ~s.ok THEN s ELSE ParseAltRest(t, s.p, Append(alts, s.n))
    ELSE Ok(IF Len(alts) = 1 THEN alts[1] ELSE [k |-> "alt", l |-> alts], p)
ParseSeq(t, p, items) ==
    IF p > Len(t) \/ t[p] \in {124, 41} THEN Ok([k |-> "seq", l |-> items], p)
    ELSE LET a == ParseAtom(t, p)
         IN IF ~a.ok THEN a
            ELSE LET q == ParseQuant(t, a) IN IF ~q.ok THEN q ELSE ParseSeq(t, q.p, Append(items, q.n))
Rep(n, lo, hi, p) == Ok([k |-> "rep", n |-> n, lo |-> lo, hi |-> hi], p)
ParseQuant(t, a) ==
    LET c == At(t, a.p)
        anchor == a.n.k \in {"bol", "eol", "end", "bnd"}
        r == IF c = STAR THEN Rep(a.n, 0, -1, a.p + 1)
             ELSE IF c = 43 THEN Rep(a.n, 1, -1, a.p + 1)
             ELSE IF c = QUEST THEN Rep(a.n, 0, 1, a.p + 1)
             ELSE IF c = LBRACE
                  THEN LET b == ParseBraces(t, a.p)
                       IN IF b = << >> THEN Ok(a.n, a.p)
                          ELSE IF b[2] >= 0 /\ b[2] < b[1] THEN Fail(a.p)
                          ELSE Rep(a.n, b[1], b[2], b[3])
             ELSE Ok(a.n, a.p)
    IN IF ~r.ok \/ r.p = a.p THEN r
       ELSE IF anchor THEN Fail(a.p)
       ELSE IF At(t, r.p) = QUEST THEN [r EXCEPT !.p = r.p + 1]      \* lazy: the same language
       ELSE IF At(t, r.p) \in {STAR, 43} \/ (At(t, r.p) = LBRACE /\ ParseBraces(t, r.p) # << >>) THEN Fail(r.p)              \* multiple repeat
       ELSE r
ParseAtom(t, p) ==
    LET c == t[p] IN
    CASE c = 40 ->
           LET q == IF At(t, p + 1) = QUEST /\ At(t, p + 2) = COLON THEN p + 3 ELSE p + 1
               a == ParseAlt(t, q)
           IN IF ~a.ok THEN a ELSE IF At(t, a.p) # 41 THEN Fail(p) ELSE Ok([k |-> "grp", n |-> a.n], a.p + 1)
      [] c = LBRACK ->
           LET neg == At(t, p + 1) = CARET
               r == ParseClass(t, IF neg THEN p + 2 ELSE p + 1, TRUE, {}, {})
           IN IF ~r.ok THEN Fail(p) ELSE Ok([k |-> "cls", neg |-> neg, R |-> r.R, N |-> r.N], r.p)
      [] c = DOT -> Ok([k |-> "any"], p + 1)
      [] c = CARET -> Ok([k |-> "bol"], p + 1)
      [] c = 36 -> Ok([k |-> "eol"], p + 1)
      [] c = BSLASH ->
           IF p = Len(t) THEN Fail(p)
           ELSE IF IsNamed(t[p + 1]) THEN Ok([k |-> "cls", neg |-> FALSE, R |-> {}, N |-> Named(t[p + 1])], p + 2)
           ELSE IF t[p + 1] = 65 THEN Ok([k |-> "bol"], p + 2)          \* \A
           ELSE IF t[p + 1] = 90 THEN Ok([k |-> "end"], p + 2)          \* \Z
           ELSE IF t[p + 1] \in {66, 98} THEN Ok([k |-> "bnd", neg |-> t[p + 1] = 66], p + 2)       \* \b \B
           ELSE IF BadEsc(t[p + 1]) THEN Fail(p)
           ELSE Ok(Chr(EscChar(t[p + 1])), p + 2)
      [] c \in {STAR, 43, QUEST} \/ (c = LBRACE /\ ParseBraces(t, p) # << >>) -> Fail(p)                              \* nothing to repeat
      [] OTHER -> Ok(Chr(c), p + 1)
ParseRegex(t) == LET a == ParseAlt(t, 1) IN IF a.ok /\ a.p <= Len(t) THEN Fail(a.p) ELSE a
ValidRegex(t) == ParseRegex(t).ok

InClass2(c, n) == (\E r \in n.R : r[1] <= c /\ c <= r[2]) \/ (\E s \in n.N : InNamed(c, s))

RECURSIVE Ends(_, _, _, _), Closure(_, _, _, _, _), Times(_, _, _, _, _)
\* positions are numbers of consumed characters
Ends(n, t, ic, S) ==
    IF S = {} THEN {} ELSE
    CASE n.k = "chr" -> {p + 1 : p \in {q \in S : q < Len(t) /\ (t[q + 1] = n.c \/ (ic /\ LowerC(t[q + 1]) = LowerC(n.c)))}}
      [] n.k = "any" -> {p + 1 : p \in {q \in S : q < Len(t) /\ t[q + 1] # NL}}
      [] n.k = "cls" -> {p + 1 : p \in {q \in S : q < Len(t) /\
                            ((IF ic THEN \E v \in Variants(t[q + 1]) : InClass2(v, n)
                              ELSE InClass2(t[q + 1], n)) # n.neg)}}
      [] n.k = "bol" -> S \cap {0}
      [] n.k = "eol" -> {p \in S : p = Len(t) \/ (p = Len(t) - 1 /\ t[Len(t)] = NL)}
      [] n.k = "bnd" -> {p \in S : ((p > 0 /\ IsWordC(t[p])) # (p < Len(t) /\ IsWordC(t[p + 1]))) # (n.neg /\ t # <<>>)}
      [] n.k = "end" -> S \cap {Len(t)}
      [] n.k = "grp" -> Ends(n.n, t, ic, S)
      [] n.k = "seq" -> FoldLeft(LAMBDA s, x : Ends(x, t, ic, s), S, n.l)
      [] n.k = "alt" -> UNION {Ends(n.l[i], t, ic, S) : i \in DOMAIN n.l}
      [] n.k = "rep" -> LET base == Times(n.n, t, ic, S, n.lo)
                        IN IF n.hi = -1 THEN Closure(n.n, t, ic, base, base)
                           ELSE UNION {Times(n.n, t, ic, base, j) : j \in 0..(n.hi - n.lo)}
Times(n, t, ic, S, j) == IF j = 0 THEN S ELSE Times(n, t, ic, Ends(n, t, ic, S), j - 1)
Closure(n, t, ic, acc, new) ==
    LET more == Ends(n, t, ic, new) \ acc IN IF more = {} THEN acc ELSE Closure(n, t, ic, acc \cup more, more)
RegexFinds(node, t, ic) == Ends(node, t, ic, 0..Len(t)) # {}
=============================================================================
