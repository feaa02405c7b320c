----------------------------- MODULE ToolsTrace -----------------------------
(* Records: one run of kpex: o (options), calls (names of the tools called), magic [args, cmds], fc [args, threads], fastcap [args], lvs *)
EXTENDS Tools, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Verdict(r) == UNION {
   IF r.calls # r.o.tools THEN {"tools-called"} ELSE {},
   IF r.magic = <<>> THEN {} ELSE MagicArgs(r.magic[1].args) \cup MagicFaults(Run(r.magic[1].cmds), r.o),
   IF r.fc = <<>> THEN {} ELSE FasterCapFaults(r.fc[1].args, r.fc[1].threads, r.o),
   IF r.fastcap = <<>> THEN {} ELSE FastCapFaults(r.fastcap[1].args, r.o),
   IF r.lvs = <<>> THEN {} ELSE LvsFaults(r.lvs[1], r.o) }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
