---------------------------- MODULE RdbPathTrace ----------------------------
(* kind "path": names, the text KLayout wrote for them, what the code read from it (code points).                       *)
(* kind "repair": categories (paths of name numbers) and items = <<[path, what]>> before and after the repair;           *)
(* loaded: KLayout reads the new file; kept: the given file is unchanged; rest: everything else is the same.            *)
EXTENDS RdbPath, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Verdict(r) ==
    IF r.crash THEN {"crash"} ELSE
    IF r.kind = "path" THEN UNION {
        IF r.text # Encode(r.names) THEN {"machinery"} ELSE {},
        IF r.read # r.names THEN {"path"} ELSE {} }
    ELSE IF ~r.loaded THEN {"not-loadable"} ELSE UNION {
        IF r.items2 # r.items THEN {"items"} ELSE {},
        IF Range(r.cats2) # Repaired(Range(r.cats), [i \in DOMAIN r.items |-> r.items[i].path]) THEN {"categories"} ELSE {},
        IF Len(r.cats2) # Cardinality(Range(r.cats2)) THEN {"category-twice"} ELSE {},
        IF ~r.kept THEN {"original-changed"} ELSE {},
        IF ~r.rest THEN {"other-contents"} ELSE {} }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
