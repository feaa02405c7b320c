---------------------------- MODULE DrawTrace ----------------------------
(* kind "draw": a circuit and the JSON of it.  kind "run": a run of netlist svg with a stand-in for netlistsvg:           *)
(* obs = [end, calls, out, outWanted, skin, log, svg, shown, extra], c and d: the circuit asked for and the JSON the tool got. *)
EXTENDS Draw, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
RunFaults(r) == LET o == r.obs IN
    IF ~Drawable(r.rq) THEN UNION {
        IF o.end = "ok" THEN {"ended-well-without-drawing"} ELSE {},
        IF o.calls # 0 \/ o.shown THEN {"drawn-though-not-drawable"} ELSE {} }
    ELSE UNION {
        IF o.calls # 1 THEN {"calls"} ELSE UNION {
            IF r.c.name # CellOf(r.rq) THEN {"machinery"} ELSE Faults(r.c, r.d),
            IF o.out # o.outWanted THEN {"output-path"} ELSE {},
            IF ~o.skin \/ o.extra THEN {"arguments"} ELSE {},
            IF ~o.log THEN {"log"} ELSE {} },
        IF (o.end = "ok") # (r.rq.exe = "ok") THEN {"result"} ELSE {},
        IF r.rq.exe = "ok" /\ ~o.svg THEN {"svg"} ELSE {},
        IF o.shown # (r.rq.preview /\ r.rq.exe = "ok") THEN {"preview"} ELSE {} }
Verdict(r) == IF r.kind = "draw" THEN (IF r.crash THEN {"crash"} ELSE Faults(r.c, r.d) \cup (IF r.again THEN {} ELSE {"not-repeatable"}))
              ELSE RunFaults(r)
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, x>> : x \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
