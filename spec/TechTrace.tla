----------------------------- MODULE TechTrace -----------------------------
(* Records: a technology t and what TechInfo answers (q); whole: the technology is a shipped one, whose data have to agree *)
EXTENDS TechData, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Verdict(r) == (IF r.whole THEN Faults(r.t) ELSE {}) \cup LookupFaults(r.t, r.q)
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
