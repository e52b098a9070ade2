-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Integers of any size: [neg |-> BOOLEAN, d |-> digits], most significant *)
(* digit first, no leading zeros, zero is << >>.  (TLC's own integers have *)
(* 32 bits, file sizes and the literals of sizes do not fit.)              *)
(***************************************************************************)
EXTENDS Text

Digits0 == << >>
StripZeros(d) == StripStart(d, LAMBDA x : x = 0)
MkNat(d) == [neg |-> FALSE, d |-> StripZeros(d)]
Zero == [neg |-> FALSE, d |-> << >>]
One == [neg |-> FALSE, d |-> <<1>>]

RECURSIVE NatDigits(_)
NatDigits(i) == IF i = 0 THEN << >> ELSE Append(NatDigits(i \div 10), i % 10)
FromInt(i) == IF i >= 0 THEN [neg |-> FALSE, d |-> NatDigits(i)]
              ELSE [neg |-> TRUE, d |-> NatDigits(-i)]
\* numbers below 2^31 only
ToInt(n) == LET v == FoldLeft(LAMBDA a, x : a * 10 + x, 0, n.d) IN IF n.neg THEN -v ELSE v
\* text of decimal digits to number
NatOfText(t) == MkNat(Tup([i \in DOMAIN t |-> t[i] - 48]))
SmallInt(n) == Len(n.d) <= 9

CmpDigits(a, b) == IF Len(a) # Len(b) THEN CmpInt(Len(a), Len(b)) ELSE CmpText(a, b)
CmpNum(a, b) ==
    IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
    ELSE IF a.neg THEN CmpDigits(b.d, a.d) ELSE CmpDigits(a.d, b.d)

\* digit-wise addition of naturals
RECURSIVE AddRec(_, _, _)
AddRec(a, b, carry) ==
    IF a = << >> /\ b = << >> THEN (IF carry = 0 THEN << >> ELSE <<carry>>)
    ELSE LET x == IF a = << >> THEN 0 ELSE a[Len(a)]
             y == IF b = << >> THEN 0 ELSE b[Len(b)]
             s == x + y + carry
         IN Append(AddRec(IF a = << >> THEN a ELSE SubSeq(a, 1, Len(a) - 1),
                          IF b = << >> THEN b ELSE SubSeq(b, 1, Len(b) - 1), s \div 10), s % 10)
RECURSIVE SubRec(_, _, _)
SubRec(a, b, borrow) ==             \* a >= b
    IF a = << >> THEN << >>
    ELSE LET x == a[Len(a)]
             y == IF b = << >> THEN 0 ELSE b[Len(b)]
             s == x - y - borrow
         IN Append(SubRec(SubSeq(a, 1, Len(a) - 1),
                          IF b = << >> THEN b ELSE SubSeq(b, 1, Len(b) - 1),
                          IF s < 0 THEN 1 ELSE 0), IF s < 0 THEN s + 10 ELSE s)
Neg(a) == IF a.d = << >> THEN a ELSE [a EXCEPT !.neg = ~a.neg]
Add(a, b) ==
    IF a.neg = b.neg THEN [neg |-> a.neg, d |-> AddRec(a.d, b.d, 0)]
    ELSE IF CmpDigits(a.d, b.d) >= 0
         THEN LET r == StripZeros(SubRec(a.d, b.d, 0)) IN [neg |-> a.neg /\ r # << >>, d |-> r]
         ELSE LET r == StripZeros(SubRec(b.d, a.d, 0)) IN [neg |-> b.neg /\ r # << >>, d |-> r]
Sub(a, b) == Add(a, Neg(b))
SumNums(s) == FoldLeft(LAMBDA x, y : Add(x, y), Zero, s)

\* multiplication of digits by a small natural (< 10^8)
RECURSIVE MulRec(_, _, _)
MulRec(a, m, carry) ==
    IF a = << >> THEN (IF carry = 0 THEN << >> ELSE NatDigits(carry))
    ELSE LET s == a[Len(a)] * m + carry
         IN Append(MulRec(SubSeq(a, 1, Len(a) - 1), m, s \div 10), s % 10)
MulSmall(n, m) == [neg |-> n.neg /\ m # 0, d |-> StripZeros(MulRec(n.d, m, 0))]
RECURSIVE MulPow(_, _, _)
MulPow(n, b, e) == IF e = 0 THEN n ELSE MulPow(MulSmall(n, b), b, e - 1)
\* floor division of a natural by 10^k
DropDigits(n, k) == IF Len(n.d) <= k THEN Zero ELSE [n EXCEPT !.d = SubSeq(n.d, 1, Len(n.d) - k)]

\* division of digits by a small natural: <<quotient digits, remainder>>
DivMod(d, m) ==
    LET R == FoldLeft(LAMBDA a, x : <<Append(a[1], (a[2] * 10 + x) \div m), (a[2] * 10 + x) % m>>,
                      <<<< >>, 0>>, d)
    IN <<StripZeros(R[1]), R[2]>>

NumText(n) == IF n.d = << >> THEN <<48>>
              ELSE (IF n.neg THEN <<45>> ELSE << >>) \o Tup([i \in DOMAIN n.d |-> n.d[i] + 48])
IntText(i) == NumText(FromInt(i))
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
RECURSIVE BaseRec(_, _)
BaseRec(d, b) == IF d = << >> THEN << >>
                 ELSE LET q == DivMod(d, b) IN Append(BaseRec(q[1], b), HexDigit(q[2]))
BaseText(n, b) == IF n.d = << >> THEN <<48>>
                  ELSE (IF n.neg THEN <<45>> ELSE << >>) \o BaseRec(n.d, b)

\* JSON representation used in the records: list of digits, first element -1 for negative numbers
NumOf(j) == IF j = << >> THEN Zero
            ELSE IF j[1] = -1 THEN [neg |-> TRUE, d |-> StripZeros(Drop(j, 1))] ELSE MkNat(j)
=============================================================================
