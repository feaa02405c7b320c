---------------------------- MODULE SummaryTrace ----------------------------
(* rec.entries = entries of all cells, rec.caps / rec.res = what the summary returned: [a, b, v]                  *)
(* capacitances in units, resistances in 1/1000 units. rec.cells: the same for every cell on its own              *)
EXTENDS Summary, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Check(es, caps, res) ==
  UNION {
    IF \E p \in Pairs(es, "C") : ~\E o \in Range(caps) : Pair(o) = p THEN {"missing-capacitance"} ELSE {},
    IF \E p \in Pairs(es, "R") : ~\E o \in Range(res) : Pair(o) = p THEN {"missing-resistance"} ELSE {},
    IF \E i, j \in DOMAIN caps : i < j /\ Pair(caps[i]) = Pair(caps[j]) THEN {"pair-twice"} ELSE {},
    IF \E i, j \in DOMAIN res : i < j /\ Pair(res[i]) = Pair(res[j]) THEN {"pair-twice"} ELSE {},
    IF \E o \in Range(caps) : o.v # CapOf(es, Pair(o)) THEN {"wrong-capacitance"} ELSE {},
    IF \E o \in Range(res) : Pair(o) \notin Pairs(es, "R") THEN {"spurious-resistance"} ELSE
    IF \E o \in Range(res) : LET r == ResOf(es, Pair(o)) IN Abs(o.v * r[2] - 1000 * r[1]) > r[2] THEN {"wrong-resistance"} ELSE {} }
Verdict(r) ==
  IF r.crash THEN {"crash"} ELSE
  Check(FoldLeft(LAMBDA s, c : s \o c.entries, <<>>, r.cells), r.caps, r.res)
  \cup UNION {Check(c.entries, c.caps, c.res) : c \in Range(r.cells)}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
