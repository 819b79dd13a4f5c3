------------------------------ MODULE Handlers -------------------------------
(***************************************************************************)
(* Reading a journal as package parser offers it: entries are handed to    *)
(* the caller's handlers, which may refuse one; a kind of entry without a  *)
(* handler is passed over; and the reader of the root file may fail.       *)
(*                                                                         *)
(* given   the kinds of entry there is a handler for                       *)
(* refuse  the call of a handler that is refused, counting from 1; or 0    *)
(* cut     how many whole lines of the root file arrive before its reader  *)
(*         fails (instead of reaching the end, if they are all); or -1     *)
(* stopped "", or who stopped the reading: "reader" or "handler"           *)
(***************************************************************************)
EXTENDS Reports

VARIABLES given, refuse, cut, stopped
hvars == <<files, stack, open, out, err, given, refuse, cut, stopped>>

Calls(o) == SelectSeq(o, LAMBDA x : x.entry.kind \in given)
RefusedIn(o) == refuse > 0 /\ Len(Calls(o)) = refuse

GoesOn  == Reading /\ stopped = ""
Arrived == cut < 0 \/ Len(stack) > 1 \/ Top.line < cut
EndsEntry == open # NoEntry /\ CanFlush /\ (AtEnd \/ LexLine(NextLine).k \in {"blank", "header", "period", "include"})
(* the handler is called with what was open, and refuses it *)
Refusal == EndsEntry /\ RefusedIn(Flushed) /\ ~RefusedIn(out)

HandlersStart(fs, root, g, r, c) == Start(fs, root) /\ given = g /\ refuse = r /\ cut = c /\ stopped = ""

ReaderFails == /\ GoesOn /\ Arrived = FALSE
               /\ stopped' = "reader"
               /\ UNCHANGED jvars
HandlerRefuses == /\ GoesOn /\ Arrived = TRUE /\ Refusal = TRUE
                  /\ stopped' = "handler" /\ err' = Chain /\ out' = Flushed
                  /\ UNCHANGED <<files, stack, open>>
ReadOn == /\ GoesOn /\ Arrived = TRUE /\ Refusal = FALSE
          /\ ReadNext
          /\ UNCHANGED stopped
HandlersNext == (ReaderFails \/ HandlerRefuses \/ ReadOn) /\ UNCHANGED <<given, refuse, cut>>

Over == ~GoesOn

(* ---- what may be observed in the end ---------------------------------- *)
Handed(x) ==
    LET e == x.entry
        t == e.kind = "transaction"
    IN  [kind |-> e.kind, file |-> Clean(x.file),
         day |-> IF t THEN DayText(e.date) ELSE IF e.month = NoDay THEN "" ELSE DayText(e.month),
         state |-> IF t THEN e.state ELSE " ", payee |-> IF t THEN e.payee ELSE "", note |-> IF t THEN e.note ELSE "",
         notes |-> e.notes,
         postings |-> [i \in 1..Len(e.postings) |->
             [account |-> e.postings[i].account, commodity |-> e.postings[i].amount.c,
              quantity |-> MoneyText(e.postings[i].amount.q), comments |-> e.postings[i].comments]]]
HandedCalls(o) == LET c == Calls(o) IN [i \in 1..Len(c) |-> Handed(c[i])]

Locations == [i \in 1..Len(err) |-> "error at " \o err[i][1] \o ":" \o ToString(err[i][2])]
Outcome(o, kind) == [calls |-> HandedCalls(o), kind |-> kind, chain |-> IF kind \in {"journal", "handler"} THEN Locations ELSE <<>>]

(* An entry that ends with the line at fault may or may not have been       *)
(* handed over before that is found out.                                    *)
AllowedOutcomes ==
    CASE stopped = "reader"  -> {Outcome(out, "reader")}
      [] stopped = "handler" -> {Outcome(out, "handler")}
                                \cup IF ~AtEnd /\ LexLine(NextLine).k = "include" THEN {Outcome(AllBut1(out), "journal")} ELSE {}
      [] err # NoError       -> {Outcome(out, "journal")}
                                \cup IF ~AtEnd /\ open # NoEntry /\ CanFlush
                                     THEN {Outcome(Flushed, IF RefusedIn(Flushed) /\ ~RefusedIn(out) THEN "handler" ELSE "journal")} ELSE {}
      [] OTHER               -> {Outcome(out, "none")}

Meets(obs, a) ==
    /\ obs.kind = a.kind
    /\ obs.calls = a.calls
    /\ a.kind \in {"journal", "handler"} =>
          Len(obs.lines) > Len(a.chain) /\ \A i \in 1..Len(a.chain) : obs.lines[i] = a.chain[i]
Permits(obs) == obs.sound /\ \E a \in AllowedOutcomes : Meets(obs, a)

(* ---- properties (C24) ------------------------------------------------- *)
(* nothing happens once somebody has stopped the reading *)
StopsAtOnce == [][stopped # "" => UNCHANGED <<out, err, stack, open>>]_hvars
(* handlers are never called for what they refused to go on from *)
NotAsked == refuse > 0 => Len(Calls(out)) <= refuse
=============================================================================
