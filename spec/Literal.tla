------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* What the literals of each type denote, and how values are printed.      *)
(* Literals give an optional value: << >> means "not a literal".           *)
(***************************************************************************)
EXTENDS Num, Bitwise

(* ---- numbers and sizes ---- *)
ParseNumber(t) == IF AllDigits(t) THEN Some(NatOfText(t)) ELSE None

Units == <<75, 77, 71, 84, 80, 69, 90, 89>>         \* K M G T P E Z Y
UnitExp(c) == LET P == {i \in DOMAIN Units : Units[i] = c} IN IF P = {} THEN 0 ELSE Min(P)
ParseSize(text) ==
    LET t == Upper(text)
        n == LET P == {i \in DOMAIN t : ~(IsDigit(t[i]) \/ t[i] = DOT)} IN IF P = {} THEN Len(t) ELSE Min(P) - 1
        num == Take(t, n)
        unit == Drop(t, n)
        parts == SplitOn(num, DOT)
        whole == AllDigits(num)
        decimal == Len(parts) = 2 /\ AllDigits(parts[1]) /\ AllDigits(parts[2])
        exp == IF unit = << >> THEN 0 ELSE UnitExp(unit[1])
        suffix == Drop(unit, 1)
        base == IF suffix = <<66>> THEN 1000 ELSE 1024
        frac == IF decimal THEN Len(parts[2]) ELSE 0
        mant == IF whole THEN NatOfText(num) ELSE NatOfText(parts[1] \o parts[2])
    IN IF whole /\ unit \in {<< >>, <<66>>} THEN Some(NatOfText(num))
       ELSE IF (whole \/ decimal) /\ exp > 0 /\ suffix \in {<< >>, <<66>>, <<73, 66>>}
            THEN Some(DropDigits(MulPow(mant, base, exp), frac))
       ELSE None

(* ---- durations ---- *)
UnitSeconds(c) == CASE c = 115 -> 1 [] c = 109 -> 60 [] c = 104 -> 3600 [] c = 100 -> 86400
                    [] c = 119 -> 604800 [] c = 77 -> 2592000 [] c = 121 -> 31536000 [] OTHER -> 0
RECURSIVE DurationTerms(_)
DurationTerms(t) ==             \* << >> or the sum as an option
    IF t = << >> THEN Some(Zero)
    ELSE LET n == LET P == {i \in DOMAIN t : ~IsDigit(t[i])} IN IF P = {} THEN Len(t) ELSE Min(P) - 1
         IN IF n = 0 \/ n = Len(t) \/ UnitSeconds(t[n + 1]) = 0 THEN None
            ELSE LET rest == DurationTerms(Drop(t, n + 1))
                 IN IF rest = None THEN None
                    ELSE Some(Add(MulSmall(NatOfText(Take(t, n)), UnitSeconds(t[n + 1])), rest[1]))
ParseDuration(t) == IF AllDigits(t) THEN Some(MulSmall(NatOfText(t), 60)) ELSE DurationTerms(t)

(* ---- times: env has now (seconds, small integer) and tz (seconds east of UTC) ---- *)
Dec(t) == FoldLeft(LAMBDA a, x : a * 10 + (x - 48), 0, t)
\* Matches t against a picture: 9 is a digit, other characters stand for themselves.
Pic(t, pic) == /\ Len(t) = Len(pic)
               /\ \A i \in DOMAIN t : IF pic[i] = 57 THEN IsDigit(t[i]) ELSE t[i] = pic[i]
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
\* days since 1970-01-01
DaysOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
CivilOf(days) ==
    LET z == days + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
DateTime(y, mo, d, h, mi, s, env) ==
    IF ValidDate(y, mo, d) /\ h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
    THEN Some(Sub(Add(MulSmall(FromInt(DaysOf(y, mo, d)), 86400), FromInt(h * 3600 + mi * 60 + s)), FromInt(env.tz)))
    ELSE None
ClockTime(h, mi, s, env) ==
    IF h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
    THEN LET loc == env.now + env.tz
             today == loc \div 86400
             t == today * 86400 + h * 3600 + mi * 60 + s
         IN Some(FromInt((IF t > loc THEN t - 86400 ELSE t) - env.tz))
    ELSE None
Fld(t, a, b) == Dec(SubSeq(t, a, b))
PicDTS == T("9999-99-99 99:99:99")
PicDT == T("9999-99-99 99:99")
PicDTC == T("999999999999")
PicD == T("9999-99-99")
PicDC == T("99999999")
PicTS == T("99:99:99")
PicTM == T("99:99")
PicTC == T("9999")
\* a plain number: digits, optional sign, optional fraction (towards zero)
ParseEpoch(t) ==
    LET neg == t # << >> /\ t[1] = DASH
        u == IF neg THEN Drop(t, 1) ELSE t
        parts == SplitOn(u, DOT)
    IN IF AllDigits(u) \/ (Len(parts) = 2 /\ AllDigits(parts[1]) /\ AllDigits(parts[2]))
       THEN LET n == NatOfText(parts[1]) IN Some(IF neg THEN Neg(n) ELSE n)
       ELSE None
\* The documented reading; the program is known to take all-digit dates and times for epoch seconds
\* (known finding), which is what compact = FALSE says.
ParseTime(t, env, compact) ==
    CASE Pic(t, PicDTS) -> DateTime(Fld(t,1,4), Fld(t,6,7), Fld(t,9,10), Fld(t,12,13), Fld(t,15,16), Fld(t,18,19), env)
      [] Pic(t, PicDT) -> DateTime(Fld(t,1,4), Fld(t,6,7), Fld(t,9,10), Fld(t,12,13), Fld(t,15,16), 0, env)
      [] Pic(t, PicD) -> DateTime(Fld(t,1,4), Fld(t,6,7), Fld(t,9,10), 0, 0, 0, env)
      [] Pic(t, PicTS) -> ClockTime(Fld(t,1,2), Fld(t,4,5), Fld(t,7,8), env)
      [] Pic(t, PicTM) -> ClockTime(Fld(t,1,2), Fld(t,4,5), 0, env)
      [] compact /\ Pic(t, PicDTC) -> DateTime(Fld(t,1,4), Fld(t,5,6), Fld(t,7,8), Fld(t,9,10), Fld(t,11,12), 0, env)
      [] compact /\ Pic(t, PicDC) -> DateTime(Fld(t,1,4), Fld(t,5,6), Fld(t,7,8), 0, 0, 0, env)
      [] compact /\ Pic(t, PicTC) -> ClockTime(Fld(t,1,2), Fld(t,3,4), 0, env)
      [] OTHER ->
           IF ParseEpoch(t) # None THEN ParseEpoch(t)
           ELSE LET d == DurationTerms(t) IN IF d = None \/ t = << >> THEN None ELSE Some(Sub(FromInt(env.now), d[1]))

(* ---- booleans ---- *)
TrueWords == {T("true"), T("t"), T("1"), T("yes"), T("y"), T("on")}
FalseWords == {T("false"), T("f"), T("0"), T("no"), T("n"), T("off")}
ParseBoolean(t) == LET l == Lower(t) IN IF l \in TrueWords THEN Some(TRUE) ELSE IF l \in FalseWords THEN Some(FALSE) ELSE None

(* ---- modes: integers, 12 permission bits ---- *)
ModeAll == 4095
ClassBits(c) == CASE c = 117 -> 2048 + 448 [] c = 103 -> 1024 + 56 [] c = 111 -> 512 + 7 [] c = 97 -> 4095 [] OTHER -> 0
PermBits(c) == CASE c = 114 -> 256 + 32 + 4 [] c = 119 -> 128 + 16 + 2 [] c = 120 -> 64 + 8 + 1
                 [] c = 115 -> 2048 + 1024 [] c = 116 -> 512 [] OTHER -> 0
OrAll(s) == FoldLeft(LAMBDA a, x : a | x, 0, s)
OctDigit(c) == c \in 48..55
\* one clause: [ok, affected, op, val]
ParseClause(t) ==
    LET o == FirstOfPos(t, {43, 45, 61})
        who == IF o = 0 THEN << >> ELSE Take(t, o - 1)
        what == Drop(t, o)
        symbolic == o > 0 /\ what # << >> /\ AllIn(who, LAMBDA c : c \in {117, 103, 111, 97})
                    /\ AllIn(what, LAMBDA c : c \in {114, 119, 120, 88, 115, 116})
        octal == what # << >> /\ who = << >> /\ AllIn(what, OctDigit) /\ Len(what) <= 9
    IN IF symbolic
       THEN [ok |-> TRUE, op |-> t[o], val |-> OrAll(Tup([i \in DOMAIN what |-> PermBits(what[i])])),
             affected |-> IF who = << >> THEN 4095 ELSE OrAll(Tup([i \in DOMAIN who |-> ClassBits(who[i])]))]
       ELSE IF octal
       THEN [ok |-> TRUE, op |-> IF o = 0 THEN EQUALS ELSE t[o], affected |-> 4095,
             val |-> FoldLeft(LAMBDA a, x : a * 8 + (x - 48), 0, what)]
       ELSE [ok |-> FALSE, op |-> 0, affected |-> 0, val |-> 0]
ParseMode(t) ==
    LET C == LET parts == SplitOn(t, COMMA) IN Tup([i \in DOMAIN parts |-> ParseClause(parts[i])])
    IN IF \E i \in DOMAIN C : ~C[i].ok THEN None
       ELSE Some(FoldLeft(LAMBDA m, c :
                   LET v == c.affected & c.val
                   IN CASE c.op = EQUALS -> (m & (4095 - c.affected)) | v
                        [] c.op = 43 -> m | v
                        [] c.op = 45 -> m & (4095 - v), 0, C))

(* ---- printing ---- *)
Pad2(i) == IF i < 10 THEN <<48>> \o IntText(i) ELSE IntText(i)
Pad4(i) == IF i < 10 THEN T("000") \o IntText(i) ELSE IF i < 100 THEN T("00") \o IntText(i)
           ELSE IF i < 1000 THEN T("0") \o IntText(i) ELSE IntText(i)
FormatTime(n, env) ==           \* |n| < 2^31
    LET loc == ToInt(n) + env.tz
        days == loc \div 86400
        s == loc % 86400
        c == CivilOf(days)
    IN IntText(c[1]) \o <<DASH>> \o Pad2(c[2]) \o <<DASH>> \o Pad2(c[3]) \o <<SP>> \o
       Pad2(s \div 3600) \o <<COLON>> \o Pad2((s % 3600) \div 60) \o <<COLON>> \o Pad2(s % 60)
FormatDuration(n) ==
    LET h == DivMod(n.d, 3600)
        m == h[2] \div 60
        s == h[2] % 60
    IN IF h[1] # << >> THEN NumText(MkNat(h[1])) \o <<104>> \o Pad2(m) \o <<109>> \o Pad2(s) \o <<115>>
       ELSE IntText(m) \o <<109>> \o Pad2(s) \o <<115>>
\* Sizes: the number in tenths of a unit; a half may be rounded either way, and rounding to tenths may
\* be done once or at every step.  Gives the set of acceptable texts.
RoundDiv(d, b) ==               \* digits / b, rounded: set of digit sequences
    LET q == DivMod(d, b) up == StripZeros(AddRec(q[1], <<1>>, 0))
    IN IF 2 * q[2] < b THEN {q[1]} ELSE IF 2 * q[2] > b THEN {up} ELSE {q[1], up}
SizeUnit(e) == IF e = 0 THEN << >> ELSE <<Units[e]>>
TenthsText(d, e, si) ==
    LET q == DivMod(d, 10)
        num == IF CmpDigits(d, <<1, 0, 0>>) < 0 THEN NumText(MkNat(q[1])) \o <<DOT>> \o IntText(q[2]) ELSE NumText(MkNat(q[1]))
    IN num \o SizeUnit(e) \o (IF si THEN <<66>> ELSE << >>)
RECURSIVE SizeSteps(_, _, _, _)
SizeSteps(d, base, e, si) ==    \* d tenths in unit e
    IF CmpDigits(d, NatDigits(base * 10)) < 0 \/ e = 8 THEN {TenthsText(d, e, si)}
    ELSE UNION {SizeSteps(x, base, e + 1, si) : x \in RoundDiv(d, base)}
RECURSIVE PowInt(_, _)
PowInt(b, e) == IF e = 0 THEN One ELSE MulSmall(PowInt(b, e - 1), b)
FormatSize(n, si) ==
    LET base == IF si THEN 1000 ELSE 1024 IN
    IF CmpDigits(n.d, NatDigits(base)) < 0 THEN {NumText(n)}
    ELSE SizeSteps(Append(n.d, 0), base, 0, si)

TypeChar(md) == LET f == md \div 4096 IN
    CASE f = 4 -> 100 [] f = 8 -> DASH [] f = 10 -> 108 [] f = 1 -> 112 [] f = 12 -> 115 [] f = 2 -> 99 [] f = 6 -> 98 [] OTHER -> QUEST
Bit(m, b) == (m & b) # 0
FileMode(md) ==
    LET m == md & 4095 IN
    <<TypeChar(md),
      IF Bit(m, 256) THEN 114 ELSE DASH, IF Bit(m, 128) THEN 119 ELSE DASH,
      IF Bit(m, 2048) THEN (IF Bit(m, 64) THEN 115 ELSE 83) ELSE (IF Bit(m, 64) THEN 120 ELSE DASH),
      IF Bit(m, 32) THEN 114 ELSE DASH, IF Bit(m, 16) THEN 119 ELSE DASH,
      IF Bit(m, 1024) THEN (IF Bit(m, 8) THEN 115 ELSE 83) ELSE (IF Bit(m, 8) THEN 120 ELSE DASH),
      IF Bit(m, 4) THEN 114 ELSE DASH, IF Bit(m, 2) THEN 119 ELSE DASH,
      IF Bit(m, 512) THEN (IF Bit(m, 1) THEN 116 ELSE 84) ELSE (IF Bit(m, 1) THEN 120 ELSE DASH)>>
=============================================================================
