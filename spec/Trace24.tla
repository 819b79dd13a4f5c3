------------------------------- MODULE Trace24 -------------------------------
(* Trace validation of package parser: every plan of every recorded case in *)
(* $CASES is one behaviour of Handlers, whose end has to permit what was    *)
(* observed.                                                                *)
EXTENDS Handlers, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES caseNo, planNo, judged
tvars == <<files, stack, open, out, err, given, refuse, cut, stopped, caseNo, planNo, judged>>
Plan == Cases[caseNo].plans[planNo]

TraceInit == \E i \in 1..Len(Cases) : \E k \in 1..Len(Cases[i].plans) :
    /\ caseNo = i /\ planNo = k /\ judged = FALSE
    /\ HandlersStart(Cases[i].files, Cases[i].root, ToSet(Cases[i].plans[k].given), Cases[i].plans[k].refuse, Cases[i].plans[k].cut)
TraceRead == HandlersNext /\ UNCHANGED <<caseNo, planNo, judged>>

BadObs == {i \in 1..Len(Plan.obs) : ~Permits(Plan.obs[i])}
TraceJudge ==
    /\ Over /\ ~judged /\ judged' = TRUE
    /\ PrintT("VERDICT " \o ToJson([id |-> Cases[caseNo].id, plan |-> planNo, ok |-> BadObs = {}, bad |-> SetToSeq(BadObs),
                                    entries |-> Len(out), rejected |-> err # NoError,
                                    expected |-> IF BadObs = {} THEN <<>> ELSE SetToSeq(AllowedOutcomes)]))
    /\ UNCHANGED <<files, stack, open, out, err, given, refuse, cut, stopped, caseNo, planNo>>
TraceNext == TraceRead \/ TraceJudge
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<caseNo, planNo, judged, stack, err, stopped, Len(out), open = NoEntry>>
==============================================================================
