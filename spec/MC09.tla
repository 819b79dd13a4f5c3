------------------------------- MODULE MC09 ---------------------------------
(* C09: layouts of trees with chains, branches and names that sort apart    *)
(* from their paths.                                                        *)
EXTENDS MC

Tree09 == {"A", "A:B", "A:B:C", "A:B:C:D", "A-", "A-:B", "A:b", "AA", "é:A"}
Blocks09(n) == {B(<<"2020-01-01 p", "    " \o a \o "    £" \o ToString(n + 1), "    " \o b, "">>) :
                <<a, b>> \in {p \in Tree09 \X Tree09 : p[1] # p[2] /\ (n = 0 \/ Deep \/ p[2] \in {"A", "A:B:C"})}}
Max09 == 2
Layouts == <<Run("balance"), [Run("balance") EXCEPT !.flat = TRUE], [Run("balance") EXCEPT !.collapse = TRUE]>>
Runs09 == Layouts \o [i \in 1..3 |-> [Layouts[i] EXCEPT !.zero = TRUE]]

(* the accounts the lines of each layout stand for *)
RECURSIVE Preorder(_, _)
Preorder(v, n) == <<n>> \o FlattenSeq([i \in 1..Len(v.kids[n]) |-> Preorder(v, v.kids[n][i])])
Layouts09 == Accepted => \A z \in BOOLEAN :
    LET ps == PostingsOf(Selected(out, Run("balance")))
        v == View(ps, z)
        order == Tail(Preorder(v, ""))
        leaves == SelectSeq(order, LAMBDA n : v.kids[n] = <<>>)
        tree == BalanceOf(ps, [Run("balance") EXCEPT !.zero = z])
        flat == BalanceOf(ps, [Run("balance") EXCEPT !.zero = z, !.flat = TRUE])
        coll == BalanceOf(ps, [Run("balance") EXCEPT !.zero = z, !.collapse = TRUE])
        heads == SelectSeq(order, LAMBDA n : ParentOf(n) = "" \/ Len(v.kids[ParentOf(n)]) # 1)
    IN  order # <<>> =>
        /\ Len(order) = Cardinality(v.shown) /\ {order[i] : i \in 1..Len(order)} = v.shown
        /\ Len(tree) = Len(order) + 2 /\ Len(flat) = Len(leaves) + 2 /\ Len(coll) = Len(heads) + 2
        /\ tree[Len(tree)] = flat[Len(flat)] /\ tree[Len(tree)] = coll[Len(coll)]
        /\ \A i \in 1..Len(leaves) : flat[i] = {Column(v.com[leaves[i]], v.tot[leaves[i]]) \o "  " \o leaves[i]}
        \* siblings in order
        /\ \A i, j \in 1..Len(order) : i < j /\ ParentOf(order[i]) = ParentOf(order[j]) => StrLess(NameOf(order[i]), NameOf(order[j]))
==============================================================================
