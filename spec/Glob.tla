-------------------------------- MODULE Glob --------------------------------
(***************************************************************************)
(* gitignore-style glob patterns: parsing into tokens, and matching by     *)
(* computing the set of prefixes of the text that a prefix of the pattern  *)
(* can match.                                                              *)
(***************************************************************************)
EXTENDS Text

\* Character classes are written as sets of ranges.
RECURSIVE ClassRanges(_)
ClassRanges(t) ==
    IF t = << >> THEN {}
    ELSE IF Len(t) >= 3 /\ t[2] = DASH THEN {<<t[1], t[3]>>} \cup ClassRanges(Drop(t, 3))
    ELSE {<<t[1], t[1]>>} \cup ClassRanges(Drop(t, 1))
InClass(c, R) == \E r \in R : r[1] <= c /\ c <= r[2]

\* One token from the start of the text p: [k, n (its length), ...]
ClassEnd(p, from) ==            \* position of the ] that ends the class, 0 if there is none
    LET P == {i \in from..Len(p) : p[i] = RBRACK} IN IF P = {} THEN 0 ELSE Min(P)
GlobToken(p) ==
    IF StartsWith(p, <<SLASH, STAR, STAR, SLASH>>) THEN [k |-> "mid", n |-> 4]
    ELSE IF StartsWith(p, <<STAR, STAR, SLASH>>) THEN [k |-> "lead", n |-> 3]
    ELSE IF StartsWith(p, <<SLASH, STAR, STAR>>) THEN [k |-> "tail", n |-> 3]
    ELSE IF p[1] = STAR THEN [k |-> "star", n |-> 1]
    ELSE IF p[1] = QUEST THEN [k |-> "any", n |-> 1]
    ELSE IF p[1] = LBRACK THEN
        LET e == ClassEnd(p, 2)
        IN IF e <= 2 THEN [k |-> "chr", n |-> 1, c |-> LBRACK]       \* no ] or []
           ELSE IF p[2] = BANG /\ e > 3
                THEN [k |-> "cls", n |-> e, neg |-> TRUE, r |-> ClassRanges(SubSeq(p, 3, e - 1))]
           ELSE [k |-> "cls", n |-> e, neg |-> FALSE, r |-> ClassRanges(SubSeq(p, 2, e - 1))]
    ELSE [k |-> "chr", n |-> 1, c |-> p[1]]
RECURSIVE GlobTokens(_)
GlobTokens(p) ==
    IF p = << >> THEN << >>
    ELSE LET tok == GlobToken(p) IN <<tok>> \o GlobTokens(Drop(p, tok.n))

ValidToken(tok) == tok.k = "cls" => \A r \in tok.r : r[1] <= r[2]

\* A pattern: [include, anchored, directory, tokens]
ParseGlob(pattern, pathpattern) ==
    LET p1 == IF StartsWith(pattern, <<BSLASH, HASH>>) THEN Drop(pattern, 1) ELSE pattern
        neg == StartsWith(p1, <<BANG>>)
        p2 == IF neg THEN Drop(p1, 1) ELSE p1
        p3 == IF StartsWith(p2, <<BSLASH, BANG>>) THEN Drop(p2, 1) ELSE p2
        slash == FirstPos(p3, SLASH)
        anchored == pathpattern /\ slash > 0 /\ slash < Len(p3)
        p4 == IF anchored THEN LStripChar(p3, SLASH) ELSE p3
        directory == EndsWith(p4, <<SLASH>>)
        p5 == IF directory THEN Take(p4, Len(p4) - 1) ELSE p4
    IN [include |-> ~neg, anchored |-> anchored, directory |-> directory, tokens |-> GlobTokens(p5)]
ValidGlob(g) == \A i \in DOMAIN g.tokens : ValidToken(g.tokens[i])

\* S is the set of lengths of prefixes of t matched so far.
GlobStep(t, S, tok) ==
    LET n == Len(t) IN
    CASE tok.k = "chr" -> {p + 1 : p \in {q \in S : q < n /\ t[q + 1] = tok.c}}
      [] tok.k = "any" -> {p + 1 : p \in {q \in S : q < n /\ t[q + 1] # SLASH}}
      [] tok.k = "cls" -> {p + 1 : p \in {q \in S : /\ q < n /\ t[q + 1] # SLASH
                                                    /\ InClass(t[q + 1], tok.r) # tok.neg}}
      [] tok.k = "star" -> {r \in 0..n : \E p \in S : p <= r /\ \A k \in (p + 1)..r : t[k] # SLASH}
      [] tok.k = "lead" -> S \cup {r \in 2..n : t[r] = SLASH /\ \E p \in S : p + 2 <= r}
      [] tok.k = "mid" -> {r \in 1..n : t[r] = SLASH /\ \E p \in S : p + 1 = r \/ (p + 3 <= r /\ t[p + 1] = SLASH)}
      [] tok.k = "tail" -> S \cup {r \in 2..n : \E p \in S : p + 2 <= r /\ t[p + 1] = SLASH}
GlobMatches(tokens, t) ==
    Len(t) \in FoldLeft(LAMBDA S, tok : IF S = {} THEN S ELSE GlobStep(t, S, tok), {0}, tokens)

\* Match a path (value, last component, directory or not) without regard to a leading "!".
GlobHit(g, path, base, isdir) ==
    /\ g.directory => isdir
    /\ GlobMatches(g.tokens, IF g.anchored THEN LStripChar(path, SLASH) ELSE base)
\* The result of a % test.
GlobTest(g, path, base, isdir) == GlobHit(g, path, base, isdir) = g.include
=============================================================================
