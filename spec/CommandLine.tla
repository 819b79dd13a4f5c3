----------------------------- MODULE CommandLine -----------------------------
(***************************************************************************)
(* How a command is invoked: a machine that takes the words of a command   *)
(* line one by one and ends up with a run (see Reports) or an error.       *)
(*                                                                         *)
(* c.cmd      the command, "" until one has been named                     *)
(* c.want     the option that takes the next word as its value, or ""      *)
(* c.rest     after "--": every word is an argument                        *)
(* c.ok       FALSE once something is wrong; nothing mends that            *)
(***************************************************************************)
EXTENDS Reports

Commands == {"accounts", "balance", "budget", "payees", "print", "statistics"}
NamesOf == [accounts |-> {"accounts", "acc", "a"}, balance |-> {"balance", "bal", "b"},
            budget |-> {"budget", "bud", "B"}, payees |-> {"payees", "pay", "p"},
            print |-> {"print"}, statistics |-> {"statistics", "stats", "s"}]
NamedCommand(w) == {c \in Commands : w \in NamesOf[c]}

(* options: long name, letter, and what they set *)
Valued   == [file |-> "f", begin |-> "b", end |-> "e"]
Switches == [current |-> "c", flatten |-> "F", collapse |-> "C"]
ShowZero == "show-zero"                                 \* letter Z
LongSwitches == (DOMAIN Switches) \cup {ShowZero}
LetterOf(o) == IF o = ShowZero THEN "Z" ELSE IF o \in DOMAIN Valued THEN Valued[o] ELSE Switches[o]
Field(o) == CASE o = ShowZero -> "zero" [] o = "flatten" -> "flat" [] OTHER -> o
(* these belong to balance (and, without effect, budget); the others to all *)
Own(o) == o \in {"flatten", "collapse", ShowZero}
Known(c, o) == Own(o) => c.cmd \in {"balance", "budget"}
ByLetter(c, l) == {o \in (DOMAIN Valued) \cup LongSwitches : LetterOf(o) = l /\ Known(c, o)}

Truths == {"1", "t", "T", "true", "TRUE", "True"}
Untruths == {"0", "f", "F", "false", "FALSE", "False"}

NothingSaid == [cmd |-> "", args |-> <<>>, file |-> "", begin |-> "", end |-> "", current |-> FALSE,
                flat |-> FALSE, collapse |-> FALSE, zero |-> FALSE, want |-> "", rest |-> FALSE, ok |-> TRUE]

Wrong(c) == [c EXCEPT !.ok = FALSE]
SetTo(c, o, v) == [c EXCEPT ![Field(o)] = v]
Switch(c, o, v) == IF v \in Truths THEN SetTo(c, o, TRUE) ELSE IF v \in Untruths THEN SetTo(c, o, FALSE) ELSE Wrong(c)

(* -abc: letters of switches, up to one that takes what remains as its value *)
RECURSIVE TakeLetters(_, _)
TakeLetters(c, s) ==
    IF s = "" THEN c
    ELSE LET os == ByLetter(c, Ch(s, 1))
             o == CHOOSE x \in os : TRUE
             more == From(s, 2)
         IN  IF os = {} THEN Wrong(c)
             ELSE IF o \in LongSwitches
                  THEN IF Len(more) > 1 /\ Ch(more, 1) = "=" THEN Switch(c, o, From(more, 2))
                       ELSE TakeLetters(SetTo(c, o, TRUE), more)
                  ELSE IF more = "" THEN [c EXCEPT !.want = o]
                  ELSE SetTo(c, o, IF Len(more) > 1 /\ Ch(more, 1) = "=" THEN From(more, 2) ELSE more)

TakeLong(c, s) ==
    LET P(x) == x = "="
        e == FirstPos(s, 1, P)
        o == Slice(s, 1, e)
    IN  IF o \in LongSwitches /\ Known(c, o) THEN IF e > Len(s) THEN SetTo(c, o, TRUE) ELSE Switch(c, o, From(s, e + 1))
        ELSE IF o \in DOMAIN Valued THEN IF e > Len(s) THEN [c EXCEPT !.want = o] ELSE SetTo(c, o, From(s, e + 1))
        ELSE Wrong(c)

TakePlain(c, w) ==
    IF c.cmd # "" THEN [c EXCEPT !.args = Append(@, w)]
    ELSE IF NamedCommand(w) = {} THEN Wrong(c)
    ELSE [c EXCEPT !.cmd = CHOOSE x \in NamedCommand(w) : TRUE]

TakeWord(c, w) ==
    IF ~c.ok THEN c
    ELSE IF c.want # "" THEN SetTo([c EXCEPT !.want = ""], c.want, w)
    ELSE IF c.rest THEN TakePlain(c, w)
    ELSE IF w = "--" THEN [c EXCEPT !.rest = TRUE]
    ELSE IF StartsWith(w, "--") THEN TakeLong(c, From(w, 3))
    ELSE IF StartsWith(w, "-") /\ w # "-" THEN TakeLetters(c, From(w, 2))
    ELSE TakePlain(c, w)

RECURSIVE Words(_, _, _)
Words(c, q, i) == IF i > Len(q) THEN c ELSE Words(TakeWord(c, q[i]), q, i + 1)
Invocation(argv) == Words(NothingSaid, argv, 1)

(* ---- patterns --------------------------------------------------------- *)
(* Which patterns of the dialect of Regex.tla are none: see there.          *)
PatternOf(arg) == IF StartsWith(arg, "@") \/ StartsWith(arg, "=") THEN From(arg, 2) ELSE arg
Readable(c) == \A i \in 1..Len(c.args) :
                  /\ ValidPattern(PatternOf(c.args[i]))
                  /\ c.cmd = "payees" => ValidPattern(c.args[i])

UsageError(c) == ~c.ok \/ c.want # "" \/ c.cmd = "" \/ ~Readable(c)
Journal(c, ledger) == IF c.file # "" THEN c.file ELSE ledger

RunOf(c, day) == [cmd |-> c.cmd, args |-> c.args, begin |-> c.begin, end |-> c.end, current |-> c.current,
                  flat |-> c.flat, collapse |-> c.collapse, zero |-> c.zero, today |-> day, moment |-> <<>>]

AcceptsUsageError(obs) == obs.code = 1 /\ Len(obs.lines) <= 3 /\ Len(obs.lines) + obs.errs > 0

(* The invocation c with $LEDGER_FILE = ledger in a directory of files, of  *)
(* which the one called root has been read (delivering o, failing with e).  *)
NoJournal(c, ledger, fs) == Clean(Journal(c, ledger)) \notin DOMAIN fs
ConformsInvocation(o, e, argv, ledger, root, fs, day, obs) ==
    LET c == Invocation(argv) IN
    IF UsageError(c) THEN AcceptsUsageError(obs)
    ELSE IF NoJournal(c, ledger, fs) THEN obs.code \in {0, 1} /\ AcceptsError(<<>>, obs.lines)
    ELSE IF Assert(Journal(c, ledger) = root, "another journal") THEN Conforms(o, e, RunOf(c, day), obs) ELSE FALSE
=============================================================================
