------------------------------- MODULE MC11 ---------------------------------
(* C11: all lists of at most two filters from a list, on journals with      *)
(* something to match in every place.                                       *)
EXTENDS MC

Files11 == {[f \in {RootFile} |-> t] : t \in {
  <<"2020-01-05 * Shop    ; Head", "    ; tag: one", "    Food:Out    £1", "    ; Shop", "    food    £2", "    ; comment Two", "    Bank", "",
    "2020-01-06 shop two", "    Bank    £1", "    Food    £2", "    Food:Out  £-3", "",
    "2020-02-05", "    Zoo    £0", "      ; head">>,
  <<"2020-01-05 a.b    ; x", "    ; y", "    A:x    £1", "    ; z", "    ; zz", "    y    £-1", "",
    "2020-01-06 axb", "    A.x    £1", "    A:X    £-1", "    ; X">>}}
Args == <<"@shop", "@Shop", "=head", "=Head", "=two", "food", "Food", "^food$", "bank|zoo", "@^$", "=zz", "a.x", "a\\.x", "", "@", "=", "^(food|zoo)$", "=\\btwo\\b", "@\\.", "f[a-z]{3}:", "@^\\w+$", "\\Sood", "=\\D+TWO">>
        \o (IF Deep THEN <<"o+d", ":", "[zZ]oo", "@a.b", "=^tag", "x$", "=o", "@two$", "Two", "out">> ELSE <<>>)
One1(i, cmd) == [Run(cmd) EXCEPT !.args = <<Args[i]>>]
Two2(i, j, cmd) == [Run(cmd) EXCEPT !.args = <<Args[i], Args[j]>>]
Balance(run) == IF run.cmd = "balance" THEN [run EXCEPT !.zero = TRUE, !.flat = TRUE] ELSE run
Cmds == <<"print", "balance", "statistics">>
Runs11 == FlattenSeq([i \in 1..Len(Args) |-> <<One1(i, "print"), Balance(One1(i, "balance")), One1(i, "statistics")>>])
          \o FlattenSeq([i \in 1..Len(Args) |-> [j \in 1..Len(Args) |-> Balance(Two2(i, j, Cmds[((i + 2 * j) % 3) + 1]))]])

Covered(args) == LET sel == Selected(out, [Run("print") EXCEPT !.args = args])
                 IN  {<<sel[i].t.payee, sel[i].ps[j].account>> : <<i, j>> \in {p \in (1..Len(sel)) \X (1..20) : p[2] <= Len(sel[p[1]].ps)}}
(* A second filter only adds; together they cover what either covers; the   *)
(* order of filters does not matter.                                        *)
Additive == Accepted => \A i, j \in 1..Len(Args) :
    /\ Covered(<<Args[i], Args[j]>>) = Covered(<<Args[i]>>) \cup Covered(<<Args[j]>>)
    /\ Covered(<<Args[i], Args[j]>>) = Covered(<<Args[j], Args[i]>>)
==============================================================================
