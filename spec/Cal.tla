-------------------------------- MODULE Cal ---------------------------------
(* The proleptic Gregorian calendar.  A day is <<year, month, day>>.       *)
EXTENDS Text

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDay(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)

(* days before March 1st of the computational year, plus day of that year *)
DayNumber(t) ==
    LET y == IF t[2] <= 2 THEN t[1] - 1 ELSE t[1]
        m == (t[2] + 9) % 12
    IN  365 * y + (y \div 4) - (y \div 100) + (y \div 400) + ((m * 306 + 5) \div 10) + (t[3] - 1)

MonthOf(t) == <<t[1], t[2]>>
MonthNumber(m) == m[1] * 12 + m[2]

RECURSIVE Pad0(_, _)
Pad0(s, n) == IF Len(s) >= n THEN s ELSE Pad0("0" \o s, n)
DayText(t) == Pad0(ToString(t[1]), 4) \o "-" \o Pad0(ToString(t[2]), 2) \o "-" \o Pad0(ToString(t[3]), 2)

AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(From(s, 2), acc * 10 + DigitVal[Ch(s, 1)])
Nat4(s) == NatOf(s, 0)

NoDay == <<>>
DateSeparators == {"-", ".", "/"}

(* yyyy<sep>mm<sep>dd, or NoDay *)
ParseDay(s) ==
    IF /\ Len(s) = 10
       /\ Ch(s, 5) \in DateSeparators
       /\ Ch(s, 8) = Ch(s, 5)
       /\ AllDigits(SubSeq(s, 1, 4)) /\ AllDigits(SubSeq(s, 6, 7)) /\ AllDigits(SubSeq(s, 9, 10))
       /\ ValidDay(Nat4(SubSeq(s, 1, 4)), Nat4(SubSeq(s, 6, 7)), Nat4(SubSeq(s, 9, 10)))
    THEN <<Nat4(SubSeq(s, 1, 4)), Nat4(SubSeq(s, 6, 7)), Nat4(SubSeq(s, 9, 10))>>
    ELSE NoDay

NextDay(t) == IF t[3] < MonthDays(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1>>
              ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1>> ELSE <<t[1] + 1, 1, 1>>
PrevDay(t) == IF t[3] > 1 THEN <<t[1], t[2], t[3] - 1>>
              ELSE IF t[2] > 1 THEN <<t[1], t[2] - 1, MonthDays(t[1], t[2] - 1)>> ELSE <<t[1] - 1, 12, 31>>
RECURSIVE AddDays(_, _)
AddDays(t, n) == IF n = 0 THEN t ELSE AddDays(NextDay(t), n - 1)

(* yyyy-mm, or NoDay; used for budget entries *)
ParseMonth(s) ==
    IF /\ Len(s) = 7 /\ Ch(s, 5) = "-"
       /\ AllDigits(SubSeq(s, 1, 4)) /\ AllDigits(SubSeq(s, 6, 7))
       /\ Nat4(SubSeq(s, 6, 7)) \in 1..12
    THEN <<Nat4(SubSeq(s, 1, 4)), Nat4(SubSeq(s, 6, 7)), 1>>
    ELSE NoDay

(* What --begin and --end accept: yyyy, yyyy/mm, mm/dd (of the current     *)
(* year), yyyy/mm/dd with one of the separators; NoDay for anything else.  *)
ParseOptionDate(s, year) ==
    LET Mentions(c) == \E i \in 2..Len(s) : Ch(s, i) = c
        sep == IF Mentions("/") THEN "/" ELSE IF Mentions(".") THEN "." ELSE "-"
        q   == Split(s, sep)
        y4(x) == Len(x) = 4 /\ AllDigits(x)
        d2(x) == Len(x) = 2 /\ AllDigits(x)
    IN  IF Len(q) = 1
        THEN IF y4(s) THEN <<Nat4(s), 1, 1>> ELSE NoDay
        ELSE IF Len(q) = 2
        THEN IF y4(q[1]) /\ d2(q[2]) /\ Nat4(q[2]) \in 1..12
             THEN <<Nat4(q[1]), Nat4(q[2]), 1>>
             ELSE IF d2(q[1]) /\ d2(q[2]) /\ ValidDay(year, Nat4(q[1]), Nat4(q[2]))
             THEN <<year, Nat4(q[1]), Nat4(q[2])>>
             ELSE NoDay
        ELSE IF Len(q) = 3 /\ y4(q[1]) /\ d2(q[2]) /\ d2(q[3])
                /\ ValidDay(Nat4(q[1]), Nat4(q[2]), Nat4(q[3]))
        THEN <<Nat4(q[1]), Nat4(q[2]), Nat4(q[3])>>
        ELSE NoDay

(* ---- how long ago ------------------------------------------------------ *)
(* A moment is <<year, month, day, second of that day>>; the beginning of   *)
(* the day t, seen from there, in words: whole seconds, minutes, hours,     *)
(* days, weeks of 7, months of 30 and years of 360 days.                    *)
InWords(days, secs, label) ==
    LET N(n, unit) == ToString(n) \o " " \o unit \o "s" \o label
        One(unit) == "1 " \o unit \o label
    IN  IF days = 0
        THEN IF secs < 1 THEN "now"
             ELSE IF secs < 2 THEN One("second")
             ELSE IF secs < 60 THEN N(secs, "second")
             ELSE IF secs < 120 THEN One("minute")
             ELSE IF secs < 3600 THEN N(secs \div 60, "minute")
             ELSE IF secs < 7200 THEN One("hour")
             ELSE N(secs \div 3600, "hour")
        ELSE IF days < 2 THEN One("day")
        ELSE IF days < 7 THEN N(days, "day")
        ELSE IF days < 14 THEN One("week")
        ELSE IF days < 30 THEN N(days \div 7, "week")
        ELSE IF days < 60 THEN One("month")
        ELSE IF days < 360 THEN N(days \div 30, "month")
        ELSE IF days < 540 THEN One("year")
        ELSE IF days < 720 THEN N(2, "year")
        ELSE IF days < 37 * 360 THEN N(days \div 360, "year")
        ELSE "a long while" \o label
Ago(t, moment) ==
    LET d == DayNumber(SubSeq(moment, 1, 3)) - DayNumber(t)
        s == moment[4]
    IN  IF d >= 0 THEN InWords(d, s, " ago")
        ELSE IF s = 0 THEN InWords(-d, 0, " from now")
        ELSE InWords(-d - 1, 86400 - s, " from now")
=============================================================================
