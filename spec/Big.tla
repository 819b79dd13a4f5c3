-------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Exact signed integers of any size (TLC's own integers have 32 bits).    *)
(* A number is [neg |-> BOOLEAN, mag |-> limbs], limbs base 10000, least   *)
(* significant first, no leading zero limb; zero is [FALSE, <<>>].         *)
(* Money is an integer number of hundredths.                               *)
(***************************************************************************)
EXTENDS Text

BASE == 10000
Zero == [neg |-> FALSE, mag |-> <<>>]

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> \/ Last1(m) # 0 THEN m ELSE Strip(AllBut1(m))

Mk(n, m) == LET s == Strip(m) IN [neg |-> n /\ s # <<>>, mag |-> s]

RECURSIVE NatOfDigits(_, _)
NatOfDigits(s, acc) == IF s = "" THEN acc
                       ELSE NatOfDigits(From(s, 2), acc * 10 + DigitVal[Ch(s, 1)])

RECURSIVE LimbsOf(_)
LimbsOf(s) == IF s = "" THEN <<>>
              ELSE IF Len(s) <= 4 THEN <<NatOfDigits(s, 0)>>
              ELSE <<NatOfDigits(SubSeq(s, Len(s) - 3, Len(s)), 0)>> \o LimbsOf(SubSeq(s, 1, Len(s) - 4))

FromDigits(n, s) == Mk(n, LimbsOf(s))          \* s: a string of digits

At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE AddMag(_, _, _, _)
AddMag(a, b, i, carry) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
    ELSE LET v == At(a, i) + At(b, i) + carry
         IN  <<v % BASE>> \o AddMag(a, b, i + 1, v \div BASE)

RECURSIVE SubMag(_, _, _, _)                   \* a >= b
SubMag(a, b, i, borrow) ==
    IF i > Len(a) THEN <<>>
    ELSE LET v == At(a, i) - At(b, i) - borrow
         IN  IF v < 0 THEN <<v + BASE>> \o SubMag(a, b, i + 1, 1)
             ELSE <<v>> \o SubMag(a, b, i + 1, 0)

RECURSIVE CmpMag(_, _, _)                      \* equal lengths, from limb i down
CmpMag(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                   ELSE CmpMag(a, b, i - 1)
MagCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
                ELSE CmpMag(a, b, Len(a))

Neg(x) == [neg |-> ~x.neg /\ x.mag # <<>>, mag |-> x.mag]

Add(x, y) ==
    IF x.neg = y.neg THEN Mk(x.neg, AddMag(x.mag, y.mag, 1, 0))
    ELSE IF MagCmp(x.mag, y.mag) >= 0 THEN Mk(x.neg, SubMag(x.mag, y.mag, 1, 0))
    ELSE Mk(y.neg, SubMag(y.mag, x.mag, 1, 0))

Sub(x, y) == Add(x, Neg(y))

IsNeg(x) == x.neg
Less(x, y) == LET d == Sub(x, y) IN d.neg

RECURSIVE SumOf(_, _, _)                       \* by halves: TLC is slow deep down
SumOf(q, a, b) == IF a > b THEN Zero ELSE IF a = b THEN q[a]
                  ELSE LET m == (a + b) \div 2 IN Add(SumOf(q, a, m), SumOf(q, m + 1, b))
BigSum(q) == SumOf(q, 1, Len(q))

RECURSIVE ZeroPad(_, _)
ZeroPad(s, n) == IF Len(s) >= n THEN s ELSE ZeroPad("0" \o s, n)

RECURSIVE MagText(_, _)
MagText(m, i) == IF i = 0 THEN ""
                 ELSE (IF i = Len(m) THEN ToString(m[i]) ELSE ZeroPad(ToString(m[i]), 4)) \o MagText(m, i - 1)

(* hundredths -> "-12.34" *)
MoneyText(x) ==
    LET d == ZeroPad(MagText(x.mag, Len(x.mag)), 3)
    IN  (IF x.neg THEN "-" ELSE "") \o SubSeq(d, 1, Len(d) - 2) \o "." \o SubSeq(d, Len(d) - 1, Len(d))

MAXINT64 == FromDigits(FALSE, "9223372036854775807")
InInt64(x) == MagCmp(x.mag, MAXINT64.mag) <= 0      \* the range amounts are accepted in

FromInt(n) == IF n < 0 THEN FromDigits(TRUE, ToString(-n)) ELSE FromDigits(FALSE, ToString(n))
=============================================================================
