------------------------------- MODULE MC21 ---------------------------------
(* C21: all combinations of year, month, day and separators.                *)
EXTENDS MC

Two(n) == Pad0(ToString(n), 2)
Years == {"2020", "2021", "1900", "2000"} \cup (IF Deep THEN {"2400", "2100", "1999", "9999", "1582"} ELSE {})
Separators == {<<"-", "-">>, <<"/", "/">>, <<".", ".">>} \cup (IF Deep THEN {<<"-", "/">>, <<".", "-">>, <<"", "">>, <<" ", " ">>} ELSE {<<"-", ".">>})
Dates21 == {y \o s[1] \o Two(m) \o s[2] \o Two(d) : y \in Years, s \in {<<"-", "-">>}, m \in 0..13, d \in 0..32}
           \cup {y \o s[1] \o Two(m) \o s[2] \o Two(d) : y \in {"2020", "2021"}, s \in Separators, m \in {1, 2, 4, 12, 13}, d \in {0, 1, 28, 29, 30, 31, 32}}
Files21 == {[f \in {RootFile} |-> <<d \o " p", "    A    £1", "    B">>] : d \in Dates21}
           \cup {[f \in {RootFile} |-> <<"~ " \o y \o "-" \o Two(m), "    Food    £1", "    A", "", "2020-05-05 p", "    Expenses:Food    £1", "    B">>] : y \in Years, m \in 1..12}
Runs21 == <<Run("print"), Run("budget")>>

(* The day read is the day written, its neighbours are one day away. *)
ReadExactly == \A i \in 1..Len(out) : out[i].entry.kind = "transaction" =>
    LET d == out[i].entry.date IN
    /\ ParseDay(DayText(d)) = d
    /\ DayNumber(NextDay(d)) = DayNumber(d) + 1 /\ PrevDay(NextDay(d)) = d
    /\ d # <<2020, 5, 5>> => \E sep \in {"-", "/", "."} : StartsWith(files[RootFile][1], Join(<<Pad0(ToString(d[1]), 4), Two(d[2]), Two(d[3])>>, sep))
==============================================================================
