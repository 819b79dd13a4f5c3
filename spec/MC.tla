--------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Exhaustive exploration of small journals.  An environment writes the    *)
(* root file block by block while the journal machine reads it, and may    *)
(* stop at any block boundary.  Every finished behaviour is checked against*)
(* the properties of its module (MCnn) and emitted as a test case: the     *)
(* files, the runs, and what the specification says each run prints.       *)
(* harness/drive replays these on the real program.                        *)
(*                                                                         *)
(* A module MCnn redefines (in its .cfg) some of                           *)
(*   BlockSet(n)  the blocks that may come after n others, as              *)
(*                [text, alt]: the lines written, and their counterpart in *)
(*                an alternative text                                      *)
(*   MaxBlocks    how many blocks                                          *)
(*   FileSets     the files there are at the beginning                     *)
(*   SecondText   <<>>, or << lines >> of a file to be read afterwards     *)
(*   Runs         the runs to emit for every journal                       *)
(***************************************************************************)
EXTENDS Reports, Json, IOUtils

VARIABLES blocks,     \* number of blocks written
          alternative,\* the alternative text
          phase,      \* 1: the journal, 2: the second text
          memo        \* phase 2: what phase 1 delivered, its error and files
mvars == <<files, stack, open, out, err, blocks, alternative, phase, memo>>

RootFile == "j.journal"

Deep == IOEnv.VERIF_TIER = "thorough"
Today == ParseDay(IOEnv.TODAY)

B(text) == [text |-> text, alt |-> <<>>]

Run(cmd) == [cmd |-> cmd, args |-> <<>>, begin |-> "", end |-> "", current |-> FALSE, flat |-> FALSE,
             collapse |-> FALSE, zero |-> FALSE, today |-> Today, moment |-> <<>>]

(* to be redefined *)
BlockSet(n) == {}
MaxBlocks   == 0
FileSets    == {[f \in {RootFile} |-> <<>>]}
SecondText  == <<>>
Runs        == <<Run("print")>>
SecondRuns  == <<>>

MCInit == /\ \E fs \in FileSets : Start(fs, RootFile)
          /\ blocks = 0 /\ alternative = <<>> /\ phase = 1 /\ memo = <<>>

Write(b) == /\ Reading /\ AtEnd /\ Len(stack) = 1 /\ phase = 1 /\ blocks < MaxBlocks
            /\ files' = [files EXCEPT ![RootFile] = @ \o b.text]
            /\ alternative' = alternative \o b.alt
            /\ blocks' = blocks + 1
            /\ UNCHANGED <<stack, open, out, err, phase, memo>>

MCRead == ReadNext /\ UNCHANGED <<blocks, alternative, phase, memo>>

MCSecond == /\ Finished /\ phase = 1 /\ SecondText # <<>>
            /\ memo' = [out |-> out, err |-> err, files |-> files]
            /\ phase' = 2
            /\ files' = [f \in {RootFile} |-> SecondText[1]]
            /\ stack' = <<[name |-> RootFile, key |-> RootFile, line |-> 0]>>
            /\ open' = NoEntry /\ out' = <<>> /\ err' = NoError
            /\ UNCHANGED <<blocks, alternative>>

MCNext == (\E b \in BlockSet(blocks) : Write(b)) \/ MCRead \/ MCSecond
MCSpec == MCInit /\ [][MCNext]_mvars

Complete == Finished /\ (phase = 2 \/ SecondText = <<>>)

(* ---- emission --------------------------------------------------------- *)
Expectation(o, e, run) ==
    IF Fails(o, e, run) THEN [fails |-> TRUE, chain |-> ErrorLines(o, e, run), lines |-> <<>>]
    ELSE [fails |-> FALSE, chain |-> <<>>, lines |-> ReportLines(o, run)]

Extra(variant, expect) == [variant |-> variant, expect |-> expect]
Emitted(o, e, runs, variant) ==
    [i \in 1..Len(runs) |-> [x \in (DOMAIN runs[i]) \cup {"variant", "expect"} |->
        IF x = "variant" THEN variant ELSE IF x = "expect" THEN Expectation(o, e, runs[i]) ELSE runs[i][x]]]

OneVariant == [variants |-> <<[files |-> files, root |-> RootFile]>>, runs |-> Emitted(out, err, Runs, 1)]
TwoVariants == [variants |-> <<[files |-> memo.files, root |-> RootFile], [files |-> files, root |-> RootFile]>>,
                runs |-> Emitted(memo.out, memo.err, Runs, 1) \o Emitted(out, err, IF SecondRuns = <<>> THEN Runs ELSE SecondRuns, 2)]

Emit == Complete => PrintT("CASE " \o ToJson(IF phase = 1 THEN OneVariant ELSE TwoVariants))

(* ---- properties used by several modules ------------------------------- *)
NeverMissing == ~\E i \in 1..Len(err) : err[i][2] < 1

(* all spellings over the characters cs with at most n characters *)
RECURSIVE Spellings(_, _)
Spellings(cs, n) == IF n = 0 THEN {""}
                    ELSE LET s == Spellings(cs, n - 1)
                         IN  s \cup {c1 \o t : c1 \in cs, t \in {u \in s : Len(u) = n - 1}}
=============================================================================
