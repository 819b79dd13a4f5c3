------------------------------ MODULE Journal -------------------------------
(***************************************************************************)
(* Reading a journal: a state machine that takes the lines of the root     *)
(* file and of the files it includes, one line per step, exactly as the    *)
(* implementation's lexer and transaction builder do.                      *)
(*                                                                         *)
(* files   function from clean path to the sequence of lines of that file  *)
(* stack   the files being read, outermost first: name as it was built     *)
(*         from the include lines, key into files, lines taken so far      *)
(* open    the transaction or budget entry being built, or NoEntry;        *)
(*         its last posting (last) is kept apart until the next one starts *)
(* out     the entries delivered so far, in order, with the file they are  *)
(*         attributed to                                                   *)
(* err     NoError, or why reading stopped: the chain of <<file, line>>    *)
(*         from the root file to the line at fault                         *)
(***************************************************************************)
EXTENDS Lex

VARIABLES files, stack, open, out, err
jvars == <<files, stack, open, out, err>>

NoEntry == [kind |-> "none"]
NoPosting == [account |-> ""]
NoError == <<>>

(* ---- paths ------------------------------------------------------------ *)
DirOf(path) == LET q == Split(path, "/") IN
               IF Len(q) = 1 THEN "" ELSE Join(AllBut1(q), "/") \o "/"
RECURSIVE Reduce(_, _)
Reduce(q, acc) ==
    IF q = <<>> THEN acc
    ELSE LET h == Head(q) IN
         IF h \in {"", "."} THEN Reduce(Tail(q), acc)
         ELSE IF h = ".." /\ acc # <<>> /\ Last1(acc) # ".." THEN Reduce(Tail(q), AllBut1(acc))
         ELSE Reduce(Tail(q), Append(acc, h))
Clean(path) == (IF StartsWith(path, "/") THEN "/" ELSE "") \o Join(Reduce(Split(path, "/"), <<>>), "/")
Resolve(from, path) == IF StartsWith(path, "/") THEN path ELSE DirOf(from) \o path

(* ---- the file being read ---------------------------------------------- *)
Reading  == err = NoError /\ stack # <<>>
Top      == Last1(stack)
TopLines == files[Top.key]
AtEnd    == Top.line = Len(TopLines)
NextLine == TopLines[Top.line + 1]

Advance == stack' = [stack EXCEPT ![Len(stack)].line = @ + 1]

(* the chain of locations when the line after the last one taken is at fault *)
Chain == [i \in 1..Len(stack) |->
            <<stack[i].name, IF i = Len(stack) THEN stack[i].line + 1 ELSE stack[i].line>>]
Fail == /\ err' = Chain
        /\ UNCHANGED <<stack, open, out>>

(* ---- building entries ------------------------------------------------- *)
NewTransaction(l) == [kind |-> "transaction", date |-> l.date, state |-> l.state, payee |-> l.payee,
                      note |-> l.note, notes |-> <<>>, postings |-> <<>>, last |-> NoPosting]
NewAllocation(l)  == [kind |-> "allocation", month |-> ParseMonth(l.text), notes |-> <<>>,
                      postings |-> <<>>, last |-> NoPosting]

IsElided(p) == p.amount = <<>>
ElidedIn(q) == \E i \in 1..Len(q) : IsElided(q[i])

(* the pending posting joins the others; only one may omit its amount *)
CanAddLast(e) == e.last = NoPosting \/ ~(IsElided(e.last) /\ ElidedIn(e.postings))
AddLast(e) == IF e.last = NoPosting THEN e
              ELSE [e EXCEPT !.postings = Append(@, e.last), !.last = NoPosting]

Quantities(q) == LET w == SelectSeq(q, LAMBDA p : ~IsElided(p)) IN [i \in 1..Len(w) |-> w[i].amount.q]
CommodityOf(q) == LET w == SelectSeq(q, LAMBDA p : ~IsElided(p) /\ p.amount.c # "")
                  IN  IF w = <<>> THEN "" ELSE Last1(w).amount.c

(* A budget entry need not balance: the budget makes up the difference,     *)
(* which, like an omitted amount, has to be an amount that can be written.  *)
CanClose(e) == /\ CanAddLast(e)
               /\ LET q == AddLast(e).postings
                      s == BigSum(Quantities(q))
                  IN  IF e.kind = "allocation" \/ ElidedIn(q) THEN InInt64(s) ELSE s = Zero
FillIn(q, amt) == [i \in 1..Len(q) |-> IF IsElided(q[i]) THEN [q[i] EXCEPT !.amount = amt] ELSE q[i]]
Closed(e) == LET q == AddLast(e).postings
                 a == [c |-> CommodityOf(q), q |-> Neg(BigSum(Quantities(q)))]
             IN  [AddLast(e) EXCEPT !.postings = FillIn(q, a)]

(* deliver the open entry, if any, on behalf of the file being read *)
CanFlush == open = NoEntry \/ CanClose(open)
Flushed  == IF open = NoEntry THEN out
            ELSE Append(out, [entry |-> Closed(open), file |-> Top.name])

(* ---- one action per kind of line -------------------------------------- *)
ReadBlank(l) ==
    /\ l.k = "blank"
    /\ IF CanFlush THEN out' = Flushed /\ open' = NoEntry /\ Advance /\ UNCHANGED err
       ELSE Fail

ReadIgnored(l) ==
    /\ l.k \in {"margin", "skip"}
    /\ Advance /\ UNCHANGED <<open, out, err>>

ReadHeader(l) ==
    /\ l.k = "header"
    /\ IF CanFlush THEN out' = Flushed /\ open' = NewTransaction(l) /\ Advance /\ UNCHANGED err
       ELSE Fail

ReadPeriod(l) ==
    /\ l.k = "period"
    /\ IF CanFlush THEN out' = Flushed /\ open' = NewAllocation(l) /\ Advance /\ UNCHANGED err
       ELSE Fail

ReadPosting(l) ==
    /\ l.k = "posting"
    /\ IF open # NoEntry /\ CanAddLast(open)
       THEN /\ open' = [AddLast(open) EXCEPT !.last =
                          [account |-> l.account, comments |-> <<>>,
                           amount |-> IF l.elided THEN <<>> ELSE [c |-> l.commodity, q |-> l.quantity]]]
            /\ Advance /\ UNCHANGED <<out, err>>
       ELSE Fail

ReadNote(l) ==
    /\ l.k = "note"
    /\ open' = IF open = NoEntry THEN open
               ELSE IF open.last # NoPosting THEN [open EXCEPT !.last.comments = Append(@, l.text)]
               ELSE [open EXCEPT !.notes = Append(@, l.text)]
    /\ Advance /\ UNCHANGED <<out, err>>

ReadInclude(l) ==
    /\ l.k = "include"
    /\ LET name == Resolve(Top.name, l.path)
           key  == Clean(name)
       IN  IF /\ CanFlush
              /\ key \in DOMAIN files
              /\ \A i \in 1..Len(stack) : stack[i].key # key
           THEN /\ out' = Flushed /\ open' = NoEntry
                /\ stack' = Append([stack EXCEPT ![Len(stack)].line = @ + 1],
                                   [name |-> name, key |-> key, line |-> 0])
                /\ UNCHANGED err
           ELSE Fail

ReadBad(l) == l.k = "bad" /\ Fail

EndFile ==
    IF CanFlush
    THEN /\ out' = Flushed /\ open' = NoEntry
         /\ stack' = AllBut1(stack)
         /\ UNCHANGED err
    ELSE Fail

Take(l) == \/ ReadBlank(l) \/ ReadIgnored(l) \/ ReadHeader(l) \/ ReadPeriod(l)
           \/ ReadPosting(l) \/ ReadNote(l) \/ ReadInclude(l) \/ ReadBad(l)

Start(fs, root) ==
    /\ files = fs
    /\ stack = <<[name |-> root, key |-> Clean(root), line |-> 0]>>
    /\ open = NoEntry /\ out = <<>> /\ err = NoError

ReadNext == /\ Reading
            /\ IF AtEnd THEN EndFile ELSE \E l \in {LexLine(NextLine)} : Take(l)
            /\ UNCHANGED files

Finished == ~Reading
Accepted == Finished /\ err = NoError
Rejected == err # NoError

(* The same as a function, for a single text: what reading the lines ls of *)
(* a file that includes nothing delivers.  Used to state properties about  *)
(* texts other than the one being read (round trips, rewritings).          *)
Transactions(o) == LET w == SelectSeq(o, LAMBDA x : x.entry.kind = "transaction") IN w
Allocations(o)  == SelectSeq(o, LAMBDA x : x.entry.kind = "allocation")

(* ---- properties of the reading machine -------------------------------- *)

(* C01 *)
BalancedEntry(e) == /\ ~ElidedIn(e.postings)
                    /\ e.kind = "transaction" => BigSum(Quantities(e.postings)) = Zero
Balanced == \A i \in 1..Len(out) : BalancedEntry(out[i].entry)
(* the same, given that every step delivers at most one entry *)
LastBalanced == out # <<>> => BalancedEntry(Last1(out).entry)

(* What has been delivered never changes and is never taken back. *)
AppendOnly == [][IsPrefix(out, out')]_jvars
(* Reading never changes a file (C16). *)
FilesUntouched == [][files' = files]_jvars
(* An error is final. *)
ErrorFinal == [][err # NoError => UNCHANGED jvars]_jvars
(* No file is being read twice at the same time (C14). *)
NoCycle == \A i, j \in 1..Len(stack) : i # j => stack[i].key # stack[j].key
=============================================================================
