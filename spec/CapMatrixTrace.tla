--------------------------- MODULE CapMatrixTrace ---------------------------
(* Records: rec.log, rec.exp; rec.got, rec.csv : [ok, names, rows] as read from the log, and as read back from the    *)
(* CSV file written of it;  rec.avg : rows of the averaged matrix, rec.avgcsv : read back from its CSV file, rec.kept: rows of the matrix after averaging       *)
EXTENDS CapMatrix, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Verdict(r) == LET e == Read(r.log, r.exp) IN
   IF r.got.ok # e.ok THEN {IF e.ok THEN "matrix-not-read" ELSE "incomplete-matrix-read"}
   ELSE IF ~e.ok THEN {}
   ELSE UNION {IF r.got.names # e.names THEN {"names"} ELSE {}, IF r.got.rows # e.rows THEN {"values"} ELSE {},
               IF r.csv # r.got \/ r.avgcsv # r.avg THEN {"csv"} ELSE {}, IF r.avg # Averaged(e.rows) THEN {"average"} ELSE {},
               IF r.kept # e.rows THEN {"raw-matrix-changed"} ELSE {}}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
