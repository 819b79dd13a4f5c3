-------------------------------- MODULE MC22 ---------------------------------
(* C22: an environment utters command lines word by word, with or without   *)
(* $LEDGER_FILE, in a directory with two journals.                          *)
EXTENDS CommandLine, Json, IOUtils

VARIABLES argv, ledger, root
ivars == <<files, stack, open, out, err, argv, ledger, root>>

Deep == IOEnv.VERIF_TIER = "thorough"
Today == ParseDay(IOEnv.TODAY)

J1 == "j.journal"
J2 == "/DIR/k.journal"        \* an absolute path
Text1 == <<"2020-01-31 p1", "    A:B    £1", "    Expenses:C", "", "2020-02-01 p2", "    A:D    £2", "    E", "",
           "2020-02-02 p3", "    A:B    £-1", "    Expenses:C    £1", "", "9999-12-31 p4", "    F    £0", "    G", "", "~ 2020-01", "    C    £4">>
Text2 == <<"2020-01-31 q1", "    A    £9", "    K", "", "2020-02-01 q2", "    A    £2", "    L", "",
           "2020-03-02 q3", "    M    £9", "    K", "", "2020-03-02 q4", "    N    £9", "    K", "", "~ 2020-02", "    C    £4">>
Files22 == [f \in {J1, J2} |-> IF f = J1 THEN Text1 ELSE Text2]

(* words: before the command only what belongs to every command *)
Common == {"-f", "-fj.journal", "--file=" \o J2, "-c", "-b2020-02", "--end", "2020/02/02"}
Before == Common \cup {"-f=j.journal", "--file", "--current=false", "--begin=2020.02", "j.journal", J2}
After  == Common \cup {"-Z", "-ZF", "--collapse", "-Cb", "p1", "=x", "--", "-x", "--nope", "[", "@(", "-cf" \o J2, "--show-zero=F", "-e="}
Naming == IF Deep THEN UNION {NamesOf[c] : c \in Commands} \cup {"nope"} ELSE {"balance", "s", "nope"}
AllNames == UNION {NamesOf[c] : c \in Commands}
MaxBefore == 2
MaxWords == IF Deep THEN 3 ELSE 2       \* after which no more are said

CommandAt == {i \in 1..Len(argv) : argv[i] \in AllNames \cup {"nope"}}
Said == Invocation(argv)

Init22 == /\ root \in {J1, J2}
          /\ Start(Files22, root)
          /\ ledger \in (IF Deep THEN {"", J1, J2} ELSE {"", J2})
          /\ argv \in {<<>>} \cup {<<n, "-f", "j.journal">> : n \in AllNames} \cup {<<"-c", n>> : n \in AllNames}
Read22 == ReadNext /\ UNCHANGED <<argv, ledger, root>>
Say(w) == /\ Finished
          /\ Said.ok
          /\ argv' = Append(argv, w)
          /\ UNCHANGED <<files, stack, open, out, err, ledger, root>>
SayBefore == /\ Said.cmd = "" /\ Len(argv) < MaxBefore
             /\ \E w \in Before : (Said.want = "" => StartsWith(w, "-")) /\ (Said.want # "" => ~StartsWith(w, "-")) /\ Say(w)
SayCommand == Said.cmd = "" /\ Said.want = "" /\ \E w \in Naming : Say(w)
SayAfter == /\ Said.cmd # "" /\ (Len(argv) <= MaxWords \/ (Len(argv) = 3 /\ argv[2] = "-f"))
            /\ \A i \in 1..Len(argv) : argv[i] \in AllNames => argv[i] \in Naming
            /\ \E w \in After : Say(w)
Next22 == Read22 \/ SayBefore \/ SayCommand \/ SayAfter
Spec22 == Init22 /\ [][Next22]_ivars

(* ---- emission: what is expected of the words said so far --------------- *)
Complete22 == Finished /\ CommandAt # {}
Mine == IF UsageError(Said) \/ NoJournal(Said, ledger, files) THEN root = J1 ELSE Journal(Said, ledger) = root
TheRun == RunOf(Said, Today)
Expect22 == IF UsageError(Said) THEN [fails |-> TRUE, usage |-> TRUE, chain |-> <<>>, lines |-> <<>>]
            ELSE IF NoJournal(Said, ledger, files) THEN [fails |-> TRUE, usage |-> FALSE, chain |-> <<>>, lines |-> <<>>]
            ELSE IF Fails(out, err, TheRun) THEN [fails |-> TRUE, usage |-> FALSE, chain |-> ErrorLines(out, err, TheRun), lines |-> <<>>]
            ELSE [fails |-> FALSE, usage |-> FALSE, chain |-> <<>>, lines |-> ReportLines(out, TheRun)]
Emit22 == Complete22 /\ Mine =>
    PrintT("CASE " \o ToJson([variants |-> <<[files |-> files, root |-> root]>>,
                              runs |-> <<[variant |-> 1, argv |-> argv, ledger |-> ledger, cmd |-> "", args |-> <<>>, expect |-> Expect22]>>]))

(* ---- properties of the machine ---------------------------------------- *)
(* What is wrong stays wrong, and a command once named stays named. *)
Final22 == [][Len(argv') > Len(argv) => /\ ~Said.ok => ~Said'.ok
                                        /\ Said.cmd # "" => Said'.cmd = Said.cmd]_ivars
(* Options may be moved to the end without changing the run, unless a later *)
(* option sets the same or "--" has ended the options.                      *)
Moved == Complete22 /\ Said.ok /\ ~Said.rest /\ Said.want = "" =>
    \A i \in 1..Len(argv) :
        LET one == Words([NothingSaid EXCEPT !.cmd = "balance"], <<argv[i]>>, 1)
            without == SubSeq(argv, 1, i - 1) \o SubSeq(argv, i + 1, Len(argv))
            before == Invocation(SubSeq(argv, 1, i - 1))
        IN  StartsWith(argv[i], "-") /\ one.ok /\ one.want = "" /\ before.want = ""
            /\ Cardinality({f \in {"file", "begin", "end", "current", "flat", "collapse", "zero"} : one[f] # NothingSaid[f] /\ Invocation(without)[f] # NothingSaid[f]}) = 0
            /\ (\A j \in 1..Len(argv) : argv[j] \notin {"--current=false", "--show-zero=F", "-e="})
            => Invocation(Append(without, argv[i])) = Said
=============================================================================
