-------------------------------- MODULE MC26 ---------------------------------
(* C26: all short histories of filters, from several transactions.          *)
EXTENDS Filters, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Steps == IF Deep THEN 3 ELSE 2
Blank == [op |-> "", t |-> 0, p |-> 0, text |-> "", args |-> <<>>]
Say(op, t, text) == [Blank EXCEPT !.op = op, !.t = t, !.text = text]
Comment(t, p, text) == [Blank EXCEPT !.op = "comment", !.t = t, !.p = p, !.text = text]

Patterns26 == {"@shop", "@Shop", "=head", "=Head", "=two", "food", "Food", "^food$", "bank|zoo", "@^$", "=", "@", "", "=^x", "a.x", "f[o]{2}d",
               "(", "@[", "=*", "a{2,1}", "@é", "É", "@@shop", "==", "=\\btwo$", "\\S:", "@\\Ahop"}
Few26 == {"@shop", "=head", "food", "(", "@*", "=", "Zoo"}
ArgLists == {<<>>} \cup {<<a>> : a \in Few26} \cup {<<a, b>> : a, b \in Few26}
Texts26 == {"", "Shop", "head", "two", "Food:Out"}
Ops26 == {[Blank EXCEPT !.op = "filter", !.text = a] : a \in Patterns26}
         \cup {[Blank EXCEPT !.op = "any", !.t = Len(w.txns), !.args = q] : q \in ArgLists}
         \cup {[Blank EXCEPT !.op = "string", !.text = s] : s \in Texts26}
         \cup {[Blank EXCEPT !.op = "upper", !.text = s] : s \in {"", "É", "\\S", "éa", "1"}}
         \cup {Say(h, Len(w.txns), s) : h \in {"note", "header", "payee"}, s \in {"Shop", "head", ""}}
         \cup {Say("posting", Len(w.txns), s) : s \in {"food", "Bank"}}
         \cup {Comment(Len(w.txns), p, s) : p \in (IF w.txns = <<>> THEN {} ELSE 1..Len(w.txns[Len(w.txns)].posts)), s \in {"head", "two"}}
Full == <<Say("txn", 0, "Shop é"), Say("header", 1, "Head"), Say("note", 1, "tag: one"), Say("posting", 1, "Food:Out"), Comment(1, 1, "shop"),
          Say("posting", 1, "food"), Comment(1, 2, "x"), Comment(1, 2, "Two"), Say("posting", 1, "Bank")>>
Beginnings == {<<Say("txn", 0, "")>>, Full, Full \o <<Say("filter", 0, "food")>>,
               Full \o <<Say("filter", 0, "=head"), Say("txn", 0, "shop"), Say("posting", 2, "Zoo"), Say("filter", 0, "@Shop")>>}
RECURSIVE After(_, _, _)
After(v, q, i) == IF i > Len(q) THEN v ELSE After(Outcome(v, q[i]).w, q, i + 1)
RECURSIVE Story(_, _, _)
Story(v, q, i) == IF i > Len(q) THEN <<>>
                  ELSE LET u == Outcome(v, q[i]) IN <<[op |-> q[i], res |-> u.res, seen |-> Observed(u.w)]>> \o Story(u.w, q, i + 1)

VARIABLE steps
MC26Init == \E b \in Beginnings : w = After(Nothing26, b, 1) /\ hist = Story(Nothing26, b, 1) /\ steps = 0
MC26Next == /\ steps < Steps
            /\ steps' = steps + 1
            /\ \E o \in Ops26 :
                 /\ Apply(o)
                 /\ PrintT("CASE " \o ToJson([ops |-> [i \in 1..Len(hist') |-> hist'[i].op],
                                              res |-> [i \in 1..Len(hist') |-> hist'[i].res],
                                              seen |-> <<hist'[Len(hist')].seen>>]))
MC26Spec == MC26Init /\ [][MC26Next]_<<w, hist, steps>>
MC26View == <<w, steps, Len(hist)>>
==============================================================================
