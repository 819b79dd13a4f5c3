---------------------------- MODULE AccountTree -----------------------------
(***************************************************************************)
(* The account tree as package journal offers it: accounts are created by  *)
(* looking them up, receive postings, and are removed by pruning, by a     *)
(* condition or one by one.                                                *)
(*                                                                         *)
(* acct    all accounts ever created, in order of creation; an account is  *)
(*         its index.  acct[1] is the root.  parent = 0: removed (or root) *)
(* ledger  every posting so far: its quantity and the accounts that were   *)
(*         at or above the account it was posted to                        *)
(* hist    the operations so far, each with its result and what can be     *)
(*         observed afterwards                                             *)
(***************************************************************************)
EXTENDS Big

CONSTANT Drawing                 \* are the drawings of the tree looked at, too?
VARIABLES acct, ledger, hist
tvars == <<acct, ledger, hist>>

TreeRoot == "_root_"
NewAcct(name, parent) == [name |-> name, parent |-> parent, amount |-> Zero, posts |-> 0]

RECURSIVE AtOrAbove(_, _)
AtOrAbove(A, i) == IF i = 0 THEN {} ELSE {i} \cup AtOrAbove(A, A[i].parent)
AtOrBelowOf(A, i) == {j \in 1..Len(A) : i \in AtOrAbove(A, j)}
ChildrenOf(A, i) == {j \in 1..Len(A) : A[j].parent = i}
Attached(A, i) == 1 \in AtOrAbove(A, i)
(* depth of j below i *)
Depth(A, i, j) == Cardinality(AtOrAbove(A, j)) - Cardinality(AtOrAbove(A, i))

RECURSIVE Names(_, _)
Names(A, i) == IF i = 1 THEN <<>>
               ELSE (IF A[i].parent = 0 THEN <<>> ELSE Names(A, A[i].parent)) \o <<A[i].name>>
PathOf(A, i) == Join(Names(A, i), ":")

RECURSIVE TopOf(_, _)
TopOf(A, i) == IF A[i].parent \in {0, 1} THEN i ELSE TopOf(A, A[i].parent)

(* follow names from account i; what is missing is created *)
RECURSIVE Found(_, _, _)
Found(A, i, names) ==
    IF names = <<>> THEN [at |-> i, rest |-> <<>>]
    ELSE LET c1 == {j \in ChildrenOf(A, i) : A[j].name = Head(names)}
         IN  IF c1 = {} THEN [at |-> i, rest |-> names]
             ELSE Found(A, CHOOSE j \in c1 : TRUE, Tail(names))
RECURSIVE Grow(_, _, _)
Grow(A, i, names) == IF names = <<>> THEN [acct |-> A, at |-> i]
                     ELSE Grow(Append(A, NewAcct(Head(names), i)), Len(A) + 1, Tail(names))
LookUp(A, i, names) == LET f == Found(A, i, names) IN Grow(A, f.at, f.rest)

Detach(A, S) == [j \in 1..Len(A) |-> IF j \in S THEN [A[j] EXCEPT !.parent = 0] ELSE A[j]]
Credit(A, i, q) == [j \in 1..Len(A) |->
                      LET x == IF j \in AtOrAbove(A, i) THEN [A[j] EXCEPT !.amount = Add(@, q)] ELSE A[j]
                      IN  IF j = i THEN [x EXCEPT !.posts = @ + 1] ELSE x]

(* conditions accounts can be asked for *)
Satisfies(A, i, cond) == CASE cond = "nonzero" -> A[i].amount # Zero
                           [] cond = "posted"  -> A[i].posts > 0
                           [] cond = "leaf"    -> ChildrenOf(A, i) = {}
                           [] cond = "any"     -> TRUE
                           [] cond = "none"    -> FALSE
                           [] OTHER            -> A[i].name = cond
SomeBelow(A, i, cond) == \E j \in AtOrBelowOf(A, i) : Satisfies(A, j, cond)

(* ---- operations ------------------------------------------------------- *)
(* An operation is [op, on, names, q, depth, cond]; its outcome is         *)
(* [acct, res]: the tree afterwards and the result.                        *)
Outcome(A, o) ==
    CASE o.op = "get"    -> LET g == LookUp(A, o.on, o.names) IN [acct |-> g.acct, res |-> g.at]
      [] o.op = "post"   -> LET g == LookUp(A, 1, o.names)
                            IN  [acct |-> Credit(g.acct, g.at, FromInt(o.q)), res |-> g.at]
      [] o.op = "postto" -> [acct |-> Credit(A, o.on, FromInt(o.q)), res |-> o.on]
      [] o.op = "prune"  -> [acct |-> Detach(A, {j \in AtOrBelowOf(A, o.on) \ {o.on} : Depth(A, o.on, j) = o.depth + 1}), res |-> 0]
      [] o.op = "remove" -> [acct |-> Detach(A, {j \in AtOrBelowOf(A, o.on) \ {o.on} : ~SomeBelow(A, j, o.cond)}),
                             res |-> IF SomeBelow(A, o.on, o.cond) THEN 1 ELSE 0]
      [] o.op = "empty"  -> [acct |-> Detach(A, {j \in AtOrBelowOf(A, o.on) \ {o.on} : ~SomeBelow(A, j, "nonzero")}), res |-> 0]
      [] o.op = "unlink" -> [acct |-> Detach(A, {o.on}), res |-> 0]
      [] o.op = "find"   -> [acct |-> A, res |-> 0]

(* When an operation makes sense: names are looked up only in the tree. *)
Sensible(A, o) == /\ o.op = "get" => Attached(A, o.on)
                  /\ o.op = "unlink" => o.on # 1 /\ A[o.on].name # TreeRoot

(* ---- what can be observed --------------------------------------------- *)
(* "*" and 0 stand for anything: the stored path of a removed account, and  *)
(* everything below a removed account that has a root's name.               *)
Ambiguous(A, i) == ~Attached(A, i) /\ A[TopOf(A, i)].name \in {TreeRoot, "_budget_root_"}
Sorted(S) == SetToSortSeq(S, <)
ByName(A, S) == SetToSortSeq(S, LAMBDA i, j : StrLess(A[i].name, A[j].name))
Observed(A, o) ==
    [accounts |-> [i \in 1..Len(A) |->
        [name |-> A[i].name, parent |-> A[i].parent, kids |-> ByName(A, ChildrenOf(A, i)),
         path |-> IF i > 1 /\ Attached(A, i) THEN PathOf(A, i) ELSE "*",
         comps |-> IF i > 1 /\ Attached(A, i) THEN Names(A, i) ELSE <<"*">>,
         created |-> IF i > 1 /\ ~Ambiguous(A, i) THEN PathOf(A, i) ELSE "*",
         top |-> IF Ambiguous(A, i) THEN 0 ELSE TopOf(A, i), amount |-> MoneyText(A[i].amount), posts |-> A[i].posts]],
     leaves |-> Sorted({i \in AtOrBelowOf(A, o.on) : Satisfies(A, i, "leaf")}),
     found |-> Sorted({i \in AtOrBelowOf(A, o.on) : Satisfies(A, i, o.cond)})]

(* ---- drawings (C23) --------------------------------------------------- *)
(* The lines of a drawing: the account each is for, and its text.          *)
KidsInOrder(A, i) == ByName(A, ChildrenOf(A, i))
RECURSIVE Indent(_)
Indent(d) == IF d = 0 THEN "" ELSE "  " \o Indent(d - 1)

RECURSIVE TreeOf(_, _, _)
TreeOf(A, i, d) ==
    LET ks == KidsInOrder(A, i)
    IN  FlattenSeq([k \in 1..Len(ks) |-> <<[at |-> ks[k], text |-> Indent(d) \o A[ks[k]].name]>> \o TreeOf(A, ks[k], d + 1)])

(* the last of a run of only children that starts with i *)
RECURSIVE RunEnd(_, _)
RunEnd(A, i) == IF Cardinality(ChildrenOf(A, i)) = 1 THEN RunEnd(A, KidsInOrder(A, i)[1]) ELSE i
RECURSIVE RunNames(_, _)
RunNames(A, i) == IF Cardinality(ChildrenOf(A, i)) = 1 THEN <<A[i].name>> \o RunNames(A, KidsInOrder(A, i)[1]) ELSE <<A[i].name>>
RECURSIVE CollapsedOf(_, _, _)
CollapsedOf(A, i, d) ==
    LET ks == KidsInOrder(A, i)
    IN  FlattenSeq([k \in 1..Len(ks) |->
            LET e == RunEnd(A, ks[k])
            IN  <<[at |-> e, text |-> Indent(d) \o Join(RunNames(A, ks[k]), ":")]>> \o CollapsedOf(A, e, d + 1)])

RECURSIVE FlatOf(_, _)
FlatOf(A, i) ==
    LET ks == KidsInOrder(A, i)
    IN  IF ks = <<>> THEN <<[at |-> i, text |-> PathOf(A, i)]>>
        ELSE FlattenSeq([k \in 1..Len(ks) |-> FlatOf(A, ks[k])])

(* flattened shows the paths accounts have in the tree, so not of removed ones *)
Drawn(A, i) == [tree |-> TreeOf(A, i, 0), collapsed |-> CollapsedOf(A, i, 0),
                flat |-> IF Attached(A, i) /\ ChildrenOf(A, 1) # {} THEN FlatOf(A, i) ELSE <<[at |-> 0, text |-> ""]>>]

(* Each account below i has one line of the tree, parents come first, and   *)
(* indentation is depth; collapsing keeps the accounts that have not exactly *)
(* one child; flattening keeps those that have none.                        *)
Ats(lines) == [k \in 1..Len(lines) |-> lines[k].at]
DrawnOnce == \A i \in 1..Len(acct) :
    LET below == AtOrBelowOf(acct, i) \ {i}
        t == TreeOf(acct, i, 0)
        c == CollapsedOf(acct, i, 0)
        f == FlatOf(acct, i)
        Kept(ls, S) == SelectSeq(Ats(ls), LAMBDA x : x \in S)
    IN  /\ Len(t) = Cardinality(below) /\ ToSet(Ats(t)) = below
        /\ \A k \in 1..Len(t) : /\ t[k].text = Indent(Depth(acct, i, t[k].at) - 1) \o acct[t[k].at].name
                                /\ acct[t[k].at].parent # i => \E m \in 1..(k - 1) : t[m].at = acct[t[k].at].parent
        /\ Ats(c) = Kept(t, {j \in below : Cardinality(ChildrenOf(acct, j)) # 1})
        /\ Ats(f) = IF below = {} THEN <<i>> ELSE Kept(t, {j \in below : ChildrenOf(acct, j) = {}})

TreeInit == acct = <<NewAcct(TreeRoot, 0)>> /\ ledger = <<>> /\ hist = <<>>

Apply(o) == LET u == Outcome(acct, o) IN
            /\ Sensible(acct, o)
            /\ acct' = u.acct
            /\ ledger' = IF o.op \in {"post", "postto"}
                         THEN Append(ledger, [q |-> FromInt(o.q), above |-> AtOrAbove(u.acct, u.res)]) ELSE ledger
            /\ hist' = Append(hist, [op |-> o, res |-> u.res, seen |-> IF Drawing THEN Observed(u.acct, o) @@ Drawn(u.acct, o.on) ELSE Observed(u.acct, o)])

(* ---- properties (C17) ------------------------------------------------- *)
OlderParents == \A i \in 1..Len(acct) : acct[i].parent < i
UniqueNames == \A i, j \in 1..Len(acct) : i # j /\ acct[i].parent = acct[j].parent /\ acct[i].parent # 0 => acct[i].name # acct[j].name
(* looking up the path of an account in the tree finds that account *)
PathsLeadBack == \A i \in 1..Len(acct) : Attached(acct, i) => LookUp(acct, 1, Names(acct, i)) = [acct |-> acct, at |-> i]
(* amounts are what was posted at or below *)
RolledUp == \A i \in 1..Len(acct) :
               acct[i].amount = BigSum([k \in 1..Len(SelectSeq(ledger, LAMBDA x : i \in x.above)) |->
                                           SelectSeq(ledger, LAMBDA x : i \in x.above)[k].q])
(* children's amounts and an account's own postings make up its amount, as *)
(* long as nothing has been removed                                        *)
Additive == (\A i \in 2..Len(acct) : acct[i].parent # 0) =>
            LET top == SetToSeq(ChildrenOf(acct, 1)) IN
            acct[1].amount = BigSum(<<BigSum([k \in 1..Len(SelectSeq(ledger, LAMBDA x : x.above = {1})) |-> SelectSeq(ledger, LAMBDA x : x.above = {1})[k].q])>>
                                    \o [k \in 1..Len(top) |-> acct[top[k]].amount])
(* an account in the tree keeps its name and path; removed is removed *)
Stable == [][\A i \in 1..Len(acct) :
                /\ acct'[i].name = acct[i].name
                /\ acct'[i].parent \in {acct[i].parent, 0}]_acct
=============================================================================
