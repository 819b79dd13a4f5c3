-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The file $CASES has one recorded case per line: the  *)
(* journals (variants) that were given to the real program and, for every  *)
(* run, its options and what it printed.  Each case is one behaviour: the  *)
(* journal machine reads the first variant line by line, every run on it   *)
(* is a step that has to be one the specification allows, then the next    *)
(* variant is read.  The verdict of each case is printed as JSON.          *)
(***************************************************************************)
EXTENDS CommandLine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES caseNo, variantNo, runNo, badRuns, judged
tvars == <<files, stack, open, out, err, caseNo, variantNo, runNo, badRuns, judged>>

Case    == Cases[caseNo]
Variant == Case.variants[variantNo]
TheRun  == Case.runs[runNo]

TraceInit == \E i \in 1..Len(Cases) :
    /\ caseNo = i /\ variantNo = 1 /\ runNo = 1 /\ badRuns = <<>> /\ judged = FALSE
    /\ Start(Cases[i].variants[1].files, Cases[i].variants[1].root)

TraceRead == /\ Reading /\ ReadNext
             /\ UNCHANGED <<caseNo, variantNo, runNo, badRuns, judged>>

(* Nothing but termination without a crash is required of a loose run. *)
Survives(obs) == obs.code \in {0, 1}

Invoked(run) == "argv" \in DOMAIN run
Allowed(run) ==
    /\ IF run.loose THEN Survives(run.obs)
       ELSE IF Invoked(run) THEN ConformsInvocation(out, err, run.argv, run.ledger, Variant.root, files, run.today, run.obs)
       ELSE Conforms(out, err, run, run.obs)
    /\ run.sameAs > 0 => run.obs = Case.runs[run.sameAs].obs

Expected(run) == IF Fails(out, err, run) THEN Exactly(ErrorLines(out, err, run)) ELSE ReportLines(out, run)

Mismatch(run) ==
    IF run.loose THEN [id |-> Case.id, run |-> runNo, fails |-> FALSE, expected |-> << >>]
    ELSE IF Invoked(run)
    THEN LET c == Invocation(run.argv)
             bad == UsageError(c) \/ NoJournal(c, run.ledger, files)
             r == RunOf(c, run.today)
         IN  [id |-> Case.id, run |-> runNo, fails |-> bad \/ Fails(out, err, r),
              expected |-> IF bad THEN << >> ELSE Expected(r)]
    ELSE [id |-> Case.id, run |-> runNo, fails |-> Fails(out, err, run), expected |-> Expected(run)]

TraceReport ==
    /\ Finished /\ runNo <= Len(Case.runs) /\ TheRun.variant = variantNo
    /\ runNo' = runNo + 1
    /\ badRuns' = IF Allowed(TheRun) THEN badRuns
                  ELSE IF PrintT("MISMATCH " \o ToJson(Mismatch(TheRun))) THEN Append(badRuns, runNo) ELSE badRuns
    /\ UNCHANGED <<files, stack, open, out, err, caseNo, variantNo, judged>>

(* A variant made from the output of a run has to be what that run printed. *)
FromOutput(w) == w.from > 0 => w.files[w.root] = Case.runs[w.from].obs.lines

TraceNextVariant ==
    /\ Finished /\ runNo <= Len(Case.runs) /\ TheRun.variant # variantNo
    /\ variantNo' = TheRun.variant
    /\ LET w == Case.variants[variantNo'] IN
       /\ Assert(FromOutput(w), "not the output of the run")
       /\ files' = w.files
       /\ stack' = <<[name |-> w.root, key |-> Clean(w.root), line |-> 0]>>
    /\ open' = NoEntry /\ out' = <<>> /\ err' = NoError
    /\ UNCHANGED <<caseNo, runNo, badRuns, judged>>

Verdict == [id |-> Case.id, ok |-> badRuns = <<>> /\ ~Case.touched, bad |-> badRuns, touched |-> Case.touched,
            entries |-> Len(out), rejected |-> err # NoError]

TraceDone ==
    /\ Finished /\ runNo > Len(Case.runs) /\ ~judged
    /\ judged' = TRUE
    /\ PrintT("VERDICT " \o ToJson(Verdict))
    /\ UNCHANGED <<files, stack, open, out, err, caseNo, variantNo, runNo, badRuns>>

TraceNext == TraceRead \/ TraceReport \/ TraceNextVariant \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Every case is one behaviour without branches, so these tell its states  *)
(* apart; what has been read need not be looked at again and again.        *)
TraceView == <<caseNo, variantNo, runNo, badRuns, judged, stack, err, Len(out), open = NoEntry>>

TypeOK == /\ runNo \in 1..(Len(Case.runs) + 1)
          /\ \A i \in 1..Len(stack) : stack[i].line \in 0..Len(files[stack[i].key])
=============================================================================
