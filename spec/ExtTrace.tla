------------------------------ MODULE ExtTrace ------------------------------
(* Records: rec.cells: Seq([name, ext, hasres, res]) the files of a directory (lines as sequences of code points);      *)
(* rec.mem, rec.saved: the markers of the report of them, in memory and as read back from the report file:               *)
(*   Seq([cell, k, label, n, value, box]);  rec.nums: per cell the numbers read: [nodes, rnodes : Seq(<<R, C>>)]         *)
(* rec.ok: no exception; rec.none: no ext file at all (to be refused)                                                    *)
EXTENDS Ext, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Of(items, cell) == LET s == SelectSeq(items, LAMBDA x : x.cell = cell)
                   IN [i \in DOMAIN s |-> [k |-> s[i].k, label |-> s[i].label, n |-> s[i].n, value |-> s[i].value, box |-> s[i].box]]
Nums(f, k) == LET s == Only(f, k) IN [i \in DOMAIN s |-> s[i].nums]
Kinds == {"Ports", "Nodes", "Devices", "Resistor Nodes", "Resistors"}
CellFaults(r, i) ==
   LET c == r.cells[i]
       want == TLCEval(Items(c))
   IN UNION {{<<k, w>> : k \in {k \in Kinds : ~SameBag(Only(want, k), Only(Of(IF w = "report" THEN r.mem ELSE r.saved, c.name), k))}} : w \in {"report", "file"}}
      \cup (IF r.nums[i].nodes # Nums(ExtFile(c.ext), "Nodes") THEN {<<"Nodes", "numbers">>} ELSE {})
      \cup (IF c.hasres /\ r.nums[i].rnodes # Nums(ResFile(c.res), "Resistor Nodes") THEN {<<"Resistor Nodes", "numbers">>} ELSE {})
Verdict(r) == IF r.cells = <<>> THEN (IF r.ok THEN {"nothing-accepted"} ELSE {})
              ELSE IF ~r.ok THEN {"failed"}
              ELSE (IF {x.cell : x \in ToSet(r.mem \o r.saved)} \subseteq {r.cells[i].name : i \in DOMAIN r.cells} THEN {} ELSE {"cells"})
                   \cup {f[1] \o "/" \o f[2] : f \in UNION {CellFaults(r, i) : i \in DOMAIN r.cells}}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
