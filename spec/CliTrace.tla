------------------------------ MODULE CliTrace ------------------------------
(* Records: rec.runs = <<invocation>> (engines a sequence), rec.ans = <<[outcome, called, lvs, magic, schem, made, net]>>  *)
(* outcome: "exit2" | "exit1" | "done" | "error";  lvs/magic: [got, cell, cells : <<[name, mark, kids]>>, tops]        *)
EXTENDS Cli, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Inv(x) == [x EXCEPT !.engines = Range(x.engines)]
AsCells(cs) == {<<x.name, x.mark, Range(x.kids)>> : x \in Range(cs)}
Layout(r, a) == IF a.got => (AsCells(a.cells) = InputCells(r) /\ a.tops = <<Chosen(r)>> /\ a.cell \in {"", Chosen(r)}) THEN {} ELSE {"layout-for-tool"}
One(r, a) == LET o == Outcome(r) IN
   CASE o = "usage" -> IF a.outcome = "exit2" /\ a.called = <<>> THEN {} ELSE {"usage-error"}
     [] o = "reject" -> IF a.outcome # "exit1" THEN {"accepted-though-" \o e : e \in Errors(r)} ELSE IF a.called # <<>> THEN {"tool-before-rejection"} ELSE {}
     [] o = "broken" -> IF a.outcome = "done" \/ a.called # <<>> THEN {"corrupt-input-accepted"} ELSE {}
     [] OTHER -> UNION {
          IF a.outcome = "exit1" \/ a.outcome = "exit2" THEN {"valid-command-line-rejected"} ELSE {},
          \* (the results of FastCap2 are not accepted, see C12)
          IF a.outcome = "error" /\ "fastcap" \notin r.engines THEN {"run-failed"} ELSE {},
          IF a.called # Tools(r) THEN {"tools-called"} ELSE {},
          Layout(r, a.lvs), Layout(r, a.magic),
          IF a.lvs.got /\ a.schem # (IF r.schem = "ok" THEN "given" ELSE "dummy:" \o Chosen(r)) THEN {"schematic"} ELSE {},
          IF a.outcome = "done" /\ "k25" \in r.engines /\ a.net # Chosen(r) THEN {"result-of-other-cell"} ELSE {},
          IF a.outcome = "done" /\ a.made # <<r.stem \o "__" \o Chosen(r)>> THEN {"run-directory"} ELSE {} }
Verdict(rec) == UNION {One(Inv(rec.runs[k]), rec.ans[k]) : k \in DOMAIN rec.runs}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
