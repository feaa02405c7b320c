------------------------- MODULE LvsContextTrace -------------------------
(* Records: kind "context": a layout, its LVS database's layers and connections, and the extraction context made for it;
   kind "convert": a region taken through ShapesConverter and back *)
EXTENDS LvsContext, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Convert(r) == LET names(s) == {q.net : q \in Set(s)}
              IN (IF r.ok THEN {} ELSE {"convert-error"})
                 \cup (IF names(r.before) = names(r.after) THEN {} ELSE {"convert-nets"})
                 \cup {"convert-area" : n \in {n \in names(r.before) : Of(r.before, n) # Of(r.after, n)}}
Verdict(r) == IF r.kind = "context" THEN (IF r.ok THEN Faults(r) ELSE {"error"}) ELSE Convert(r)
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
