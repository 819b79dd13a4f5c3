------------------------------- MODULE MC20 ---------------------------------
(* C20: transactions in many spellings; the alternative text spells them    *)
(* plainly.                                                                 *)
EXTENDS MC

Heads == {"2020-01-05 * Shop    ; head", "2020/01/05  *  Shop\t;head", "2020.01.05 * Shop # head"}
First == {"    A    £1.50", "\tA\t£1.5", "  A  £+1.50  ", "   \tA \t £01.5 "}
Comments == {<<"    ; c">>, <<"\t\t#c">>, <<"; margin", "  ;c">>, <<"  ", "    ;  c">>}
Last20 == {<<"    B    £-1.50">>, <<"\tB\t£-1.5\t">>, <<"# margin", "  B  £-01.50  ; ignored">>, <<"\t ", "  B   £-1.50">>}
Seps == {<<"">>, <<"", "">>, <<"", "; margin", "">>, <<>>}
Plain20 == <<"2020-01-05 * Shop    ; head", "    A    £1.50", "    ; c", "    B    £-1.50", "">>
(* vary two places at a time *)
H1 == "2020-01-05 * Shop    ; head"   F1 == "    A    £1.50"   C1 == <<"    ; c">>   L1 == <<"    B    £-1.50">>   S1 == <<"">>
Texts20 == {<<h, f>> \o C1 \o L1 \o S1 : h \in Heads, f \in First} \cup {<<h, F1>> \o c1 \o L1 \o S1 : h \in Heads, c1 \in Comments}
           \cup {<<H1, f>> \o C1 \o l1 \o S1 : f \in First, l1 \in Last20} \cup {<<H1, F1>> \o c1 \o l1 \o S1 : c1 \in Comments, l1 \in Last20}
           \cup {<<H1, F1>> \o c1 \o L1 \o s1 : c1 \in Comments, s1 \in Seps} \cup {<<H1, f>> \o C1 \o L1 \o s1 : f \in First, s1 \in Seps}
           \cup {<<h, F1>> \o C1 \o l1 \o s1 : h \in Heads, l1 \in Last20, s1 \in Seps}
Blocks20(n) == {[text |-> t, alt |-> Plain20] : t \in IF n = 0 \/ Deep THEN Texts20 ELSE {<<H1, f>> \o c1 \o L1 : f \in First, c1 \in Comments}}
Max20 == 2
Second20 == IF err = NoError THEN <<alternative>> ELSE <<>>
Runs20 == <<Run("print"), Run("balance")>> \o (IF Deep THEN <<>> ELSE <<Run("accounts"), Run("statistics")>>)
NoErrors == phase = 1 => err = NoError
SameMeaning == phase = 2 /\ Finished => err = NoError /\ out = memo.out
AppendOnly20 == [][phase' = phase => IsPrefix(out, out')]_mvars
==============================================================================
