------------------------------ MODULE LvsTrace ------------------------------
(* Each record: a history and the answers of the real command line: rec.ev = <<event>>, rec.ans = <<[ok, ver,        *)
(* called, whole]>> (for edits: ok = FALSE, ver = 0, called = <<>>).                                                  *)
EXTENDS LvsHistory, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
RECURSIVE Walk(_, _, _)
Walk(r, s, i) ==
  IF i > Len(r.ev) THEN {} ELSE
  LET e == r.ev[i] a == r.ans[i] IN
  (IF e.op = "edit" THEN {} ELSE
   LET x == Expect(s, e) IN UNION {
     IF a.ok /\ a.ver \notin Current(s, e) THEN {"stale-result"} ELSE {},
     IF a.ok /\ ~x.ok /\ ~(e.disk /\ e.on) THEN {"success-without-lvs-result"} ELSE {},
     IF ~a.ok /\ x.ok THEN {"run-failed"} ELSE {},
     IF a.called # <<>> /\ x.called = <<>> THEN {"lvs-called-though-cached"} ELSE {},
     IF a.called = <<>> /\ x.called # <<>> THEN {"lvs-not-called"} ELSE {},
     \* LVS gets one layout, which was current at some time of the run (a cell may be exported before LVS starts),
     \* and its result is the one that counts
     IF a.called # <<>> /\ (Len(a.called) # 1 \/ a.called[1] \notin Current(s, e)) THEN {"lvs-input"} ELSE {},
     IF a.ok /\ a.called # <<>> /\ a.ver # a.called[1] THEN {"other-version"} ELSE {} })
  \cup Walk(r, After(s, e), i + 1)
Verdict(r) == Walk(r, S0, 1)
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
