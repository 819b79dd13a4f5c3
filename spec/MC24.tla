-------------------------------- MODULE MC24 ---------------------------------
(* C24: an environment writes a small journal, which is read as it is, and  *)
(* then again with handlers missing or refusing and a reader that fails.    *)
EXTENDS Handlers, Json, IOUtils

VARIABLES blocks, phase, memo
mvars == <<files, stack, open, out, err, given, refuse, cut, stopped, blocks, phase, memo>>

Deep == IOEnv.VERIF_TIER = "thorough"
RootFile == "j.journal"
Kinds == {"transaction", "allocation"}

Blocks24(n) == {<<"2020-01-0" \o ToString(n + 1) \o " * p", "    A    £1", "    B">>,
                <<"2020-02-0" \o ToString(n + 1) \o " q    ; h", "    ; n", "    A    £1", "    ; c", "", "">>,
                <<"~ 2020-01", "    Food    £" \o ToString(n)>>, <<"    C    £1">>,
                <<"include i.journal">>, <<"2020-13-01">>} \cup (IF Deep THEN {<<"    B">>, <<"include gone">>, <<"">>} ELSE {})
Max24 == IF Deep THEN 4 ELSE 3
Included == <<"", "2020-03-01 i", "    A    £1", "    B", "2020-03-02 j", "    A    £2", "    B", "~ 2020-02", "    Fun    £1">>

MC24Init == /\ HandlersStart([f \in {RootFile, "i.journal"} |-> IF f = RootFile THEN <<>> ELSE Included], RootFile, Kinds, 0, -1)
            /\ blocks = 0 /\ phase = 1 /\ memo = <<>>
Write24 == /\ GoesOn /\ AtEnd /\ Len(stack) = 1 /\ phase = 1 /\ blocks < Max24
           /\ \E b \in Blocks24(blocks) : files' = [files EXCEPT ![RootFile] = @ \o b]
           /\ blocks' = blocks + 1
           /\ UNCHANGED <<stack, open, out, err, given, refuse, cut, stopped, phase, memo>>
Read24 == HandlersNext /\ UNCHANGED <<blocks, phase, memo>>

Lines24 == Len(files[RootFile])
Again24 == /\ Over /\ phase = 1 /\ phase' = 2 /\ memo' = [out |-> out, ok |-> err = NoError]
           /\ \/ given' = Kinds /\ refuse' = 0 /\ cut' \in (-1)..Lines24
              \/ given' \in SUBSET Kinds /\ cut' = -1 /\ refuse' \in 0..4
              \/ given' \in {{"transaction"}, {"allocation"}} /\ cut' \in 0..Lines24 /\ refuse' \in 1..2
           /\ (refuse' # 0 \/ cut' >= 0 \/ given' # Kinds \/ (refuse' = 0 /\ cut' = -1))
           /\ stack' = <<[name |-> RootFile, key |-> RootFile, line |-> 0]>>
           /\ open' = NoEntry /\ out' = <<>> /\ err' = NoError /\ stopped' = ""
           /\ UNCHANGED <<files, blocks>>
MC24Next == Write24 \/ Read24 \/ Again24
MC24Spec == MC24Init /\ [][MC24Next]_mvars

Emit24 == Over /\ phase = 2 =>
    PrintT("CASE " \o ToJson([id |-> "MC24", files |-> files, root |-> RootFile,
                              plans |-> <<[given |-> SetToSeq(given), refuse |-> refuse, cut |-> cut, allowed |-> SetToSeq(AllowedOutcomes)]>>]))

(* Whatever happens, only a part of the journal is handed over, from its beginning. *)
Prefix24 == phase = 2 => IsPrefix(out, memo.out) \/ (~memo.ok /\ Len(out) = Len(memo.out) + 1)
(* A journal that is wrong stays so, and a reader's failure is never the end. *)
NeverAccepted == Over /\ phase = 2 => /\ ~memo.ok => err # NoError \/ stopped # ""
                                      /\ cut >= 0 => err # NoError \/ stopped # ""
==============================================================================
