---------------------------- MODULE EnginesTrace ----------------------------
(* Records: rec.runs = <<run>>, rec.ans = <<[ok, called, dir]>> of the real command line in one output directory.    *)
EXTENDS Engines, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Before(r, k, f) == IF k = 1 THEN 0 ELSE r.ans[k - 1].dir[f]
Verdict(r) == UNION {LET x == r.runs[k] a == r.ans[k] IN UNION {
     IF a.ok /\ ~Success(x) THEN {"success-without-result"} ELSE {},
     IF ~a.ok /\ Success(x) THEN {"run-failed"} ELSE {},
     IF a.called # SelectSeq(Called(x), LAMBDA t : Beh(x, t) # "missing") THEN {"tools-called"} ELSE {},
     UNION {IF a.dir[f] \in After(x, f, Before(r, k, f), k) THEN {}
            ELSE IF ~Requested(x, f) THEN {"other-engines-files"}
            ELSE IF Delivered(x, f) THEN {"result-not-of-this-run"} ELSE {"result-of-failed-tool"} : f \in Files} } : k \in DOMAIN r.runs}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
