---------------------------- MODULE RunLogsTrace ----------------------------
(* Records: runs, sched = <<[r, at]>> (at: the barrier that run r reached in this step), and what is there at the     *)
(* end: files = <<[dir, cur, plain, lines, verb]>>, res[r] = <<[names, value, own (MAGIC's)]>> of the result files, tool[r].         *)
EXTENDS RunLogs, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
RECURSIVE Fold(_, _, _)
Fold(r, st, k) ==      \* [s, bad]
  IF k > Len(r.sched) THEN st
  ELSE LET e == r.sched[k] n == Step(st.s, r.runs, e.r) IN
       Fold(r, [s |-> n, bad |-> st.bad \cup (IF n.pc[e.r] # e.at THEN {IF e.at = "stuck" THEN "stuck" ELSE IF e.at = "exit1" THEN "failed" ELSE "other-course"} ELSE {})
                                   \cup (IF ~MayStep(st.s, r.runs, e.r) THEN {"schedule"} ELSE {})], k + 1)
Tag(r, ls) == [i \in DOMAIN ls |-> <<r, ls[i]>>]
Verdict(r) ==
  LET st == Fold(r, [s |-> S0(r.runs), bad |-> {}], 1) s == st.s Ds == {r.runs[i].dir : i \in DOMAIN r.runs} IN
  IF st.bad # {} THEN st.bad
  ELSE UNION {LET L == LogsIn(s, r.runs, d)
                  F == {i \in DOMAIN r.files : r.files[i].dir = d /\ r.files[i].plain = p}
                  Owns(f, q) == LET w == Tag(q, s.lines[q]) g == r.files[f].lines IN IF s.exact[q] THEN g = w ELSE IsPrefix(g, w) IN
       UNION {IF Cardinality(F) # Len(L) THEN {"log-files"} ELSE {},
              IF \E f \in F : \E i, j \in DOMAIN r.files[f].lines : r.files[f].lines[i][1] # r.files[f].lines[j][1] THEN {"foreign-lines"} ELSE {},
              IF \A k \in DOMAIN L : \E f \in F : Owns(f, L[k]) THEN {} ELSE {"lines"},
              IF Len(L) > 0 => \E f \in F : r.files[f].cur /\ Owns(f, Last(L)) THEN {} ELSE {"newest"},
              IF \E f \in F : ~r.files[f].verb THEN {"altered"} ELSE {}}
         : d \in Ds, p \in {TRUE, FALSE}}
       \cup UNION {IF s.pc[q] = "exit0"
                   THEN (IF \A i \in DOMAIN r.res[q] : r.res[q][i].names = (IF r.res[q][i].own THEN q ELSE s.src[q]) /\ r.res[q][i].value \in {0, q} THEN {} ELSE {"results"})
                        \cup (IF r.tool[q] THEN {} ELSE {"tool-log"})
                   ELSE {} : q \in DOMAIN r.runs}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
