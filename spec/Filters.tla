------------------------------- MODULE Filters --------------------------------
(***************************************************************************)
(* Filters of package reporting as a library: filters are made once and    *)
(* asked about transactions that may be added to in between.               *)
(*                                                                         *)
(* w.txns    transactions in order of creation: payee, the header's note,  *)
(*           notes, and postings, each an account and comments             *)
(* w.filters the filters made so far: what they look at and their pattern  *)
(* hist      the operations so far, each with its result and what every    *)
(*           filter says of every transaction afterwards                   *)
(***************************************************************************)
EXTENDS Regex

VARIABLES w, hist
fvars == <<w, hist>>

Nothing26 == [txns |-> <<>>, filters |-> <<>>]

PatternOf(arg) == IF Filter(arg).kind = "account" THEN arg ELSE From(arg, 2)
Valid(arg) == ValidPattern(PatternOf(arg))
Says(f, s) == PatternMatches(f.pat, s)

(* how a filter matches a transaction *)
How(f, t) ==
    [payee |-> f.kind = "payee" /\ Says(f, t.payee),
     note  |-> f.kind = "note" /\ (Says(f, t.note) \/ \E i \in 1..Len(t.notes) : Says(f, t.notes[i])),
     ps    |-> {p \in 1..Len(t.posts) :
                  \/ f.kind = "account" /\ Says(f, t.posts[p].account)
                  \/ f.kind = "note" /\ \E i \in 1..Len(t.posts[p].comments) : Says(f, t.posts[p].comments[i])}]
Matches(f, t) == LET h == How(f, t) IN h.payee \/ h.note \/ h.ps # {}

(* one of several arguments matches; none at all match everything *)
AnyOf(args, t) ==
    IF args = <<>> THEN "true"
    ELSE LET stop == {i \in 1..Len(args) : IF Valid(args[i]) THEN Matches(Filter(args[i]), t) ELSE TRUE}
         IN  IF stop = {} THEN "false" ELSE IF Valid(args[Min(stop)]) THEN "true" ELSE "error"

(* ---- operations ------------------------------------------------------- *)
(* [op, t, p, text, args]; the outcome is the world afterwards and a text   *)
Fine(v) == [w |-> v, res |-> "ok"]
Told(v, b) == [w |-> v, res |-> IF b THEN "true" ELSE "false"]
Bits(q) == Concat([i \in 1..Len(q) |-> IF q[i] THEN "1" ELSE "0"])
Outcome(v, o) ==
    CASE o.op = "txn"     -> Fine([v EXCEPT !.txns = Append(@, [payee |-> o.text, note |-> "", notes |-> <<>>, posts |-> <<>>])])
      [] o.op = "payee"   -> Fine([v EXCEPT !.txns[o.t].payee = o.text])
      [] o.op = "header"  -> Fine([v EXCEPT !.txns[o.t].note = o.text])
      [] o.op = "note"    -> Fine([v EXCEPT !.txns[o.t].notes = Append(@, o.text)])
      [] o.op = "posting" -> Fine([v EXCEPT !.txns[o.t].posts = Append(@, [account |-> o.text, comments |-> <<>>])])
      [] o.op = "comment" -> Fine([v EXCEPT !.txns[o.t].posts[o.p].comments = Append(@, o.text)])
      [] o.op = "filter"  -> IF Valid(o.text) THEN Fine([v EXCEPT !.filters = Append(@, Filter(o.text))])
                             ELSE [w |-> v, res |-> "error"]
      [] o.op = "any"     -> [w |-> v, res |-> AnyOf(o.args, v.txns[o.t])]
      [] o.op = "string"  -> [w |-> v, res |-> Bits([i \in 1..Len(v.filters) |-> Says(v.filters[i], o.text)])]
      [] o.op = "upper"   -> Told(v, HasUpper(o.text))
Sensible(v, o) == /\ o.op \in {"payee", "header", "note", "posting", "comment", "any"} => o.t \in 1..Len(v.txns)
                  /\ o.op = "comment" => o.p \in 1..Len(v.txns[o.t].posts)

Observed(v) == [f \in 1..Len(v.filters) |-> [t \in 1..Len(v.txns) |->
                   LET h == How(v.filters[f], v.txns[t])
                   IN  [payee |-> h.payee, note |-> h.note, ps |-> SetToSortSeq(h.ps, <)]]]

FiltersInit == w = Nothing26 /\ hist = <<>>
Apply(o) == /\ Sensible(w, o)
            /\ LET u == Outcome(w, o) IN
                 /\ w' = u.w
                 /\ hist' = Append(hist, [op |-> o, res |-> u.res, seen |-> Observed(u.w)])

(* ---- properties (C26) ------------------------------------------------- *)
(* a filter looks at one kind of thing *)
OneKind == \A f \in ToSet(w.filters), t \in ToSet(w.txns) : LET h == How(f, t) IN
    /\ f.kind = "payee" => ~h.note /\ h.ps = {}
    /\ f.kind = "account" => ~h.note /\ ~h.payee
    /\ f.kind = "note" => ~h.payee
(* adding to a transaction never takes a match away *)
OnlyMore == [][\A f \in 1..Len(w.filters), t \in 1..Len(w.txns) :
    w'.txns[t].payee = w.txns[t].payee /\ (w.txns[t].note \in {"", w'.txns[t].note}) /\ ~Says(w.filters[f], "")
        => /\ How(w.filters[f], w.txns[t]).note => How(w'.filters[f], w'.txns[t]).note
           /\ How(w.filters[f], w.txns[t]).ps \subseteq How(w'.filters[f], w'.txns[t]).ps
           /\ Matches(w.filters[f], w.txns[t]) => Matches(w'.filters[f], w'.txns[t])]_w
(* asking changes nothing, and a filter once made stays as it is *)
Unmoved == [][/\ w' # w => hist'[Len(hist')].op.op \notin {"any", "string", "upper"}
              /\ IsPrefix(w.filters, w'.filters)]_w
===============================================================================
