------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* The algebra of path texts.                                              *)
(***************************************************************************)
EXTENDS Text

Join(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
              ELSE IF a = <<SLASH>> THEN a \o b ELSE a \o <<SLASH>> \o b
\* directory part and last component
DirName(p) == LET s == LastPos(p, SLASH) IN
              IF s = 0 THEN << >> ELSE IF s = 1 THEN <<SLASH>> ELSE Take(p, s - 1)
BaseName(p) == Drop(p, LastPos(p, SLASH))
\* Everything up to the last dot of the last component that follows a character other than a dot.
ExtPos(p) == LET s == LastPos(p, SLASH) d == LastPos(p, DOT)
             IN IF d > s /\ \E i \in (s + 1)..(d - 1) : p[i] # DOT THEN d ELSE 0
PathX(p) == LET d == ExtPos(p) IN IF d = 0 THEN p ELSE Take(p, d - 1)
Ext(p) == LET d == ExtPos(p) IN IF d = 0 THEN << >> ELSE Drop(p, d)

Components(p) == SelectSeq(SplitOn(p, SLASH), LAMBDA c : c # << >>)
Dots == <<DOT>>
DotDot == <<DOT, DOT>>
\* components of a normalized absolute path
NormAbs(comps) ==
    FoldLeft(LAMBDA acc, c : IF c = Dots THEN acc
                             ELSE IF c = DotDot THEN (IF acc = << >> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
                             ELSE Append(acc, c), << >>, comps)
NormRel(comps) ==
    FoldLeft(LAMBDA acc, c : IF c = Dots THEN acc
                             ELSE IF c = DotDot /\ acc # << >> /\ acc[Len(acc)] # DotDot
                                  THEN SubSeq(acc, 1, Len(acc) - 1)
                             ELSE Append(acc, c), << >>, comps)
IsAbs(p) == p # << >> /\ p[1] = SLASH
AbsText(comps) == IF comps = << >> THEN <<SLASH>>
                  ELSE FlattenSeq(Tup([i \in DOMAIN comps |-> <<SLASH>> \o comps[i]]))
AbsPath(cwd, p) == AbsText(NormAbs(IF IsAbs(p) THEN Components(p) ELSE Components(cwd) \o Components(p)))
NormPath(p) == IF IsAbs(p) THEN AbsText(NormAbs(Components(p)))
               ELSE LET c == NormRel(Components(p)) IN IF c = << >> THEN Dots ELSE JoinWith(c, <<SLASH>>)
\* q is p or below p (both normalized absolute)
Below(q, p) == q = p \/ StartsWith(q, IF p = <<SLASH>> THEN p ELSE p \o <<SLASH>>)
=============================================================================
