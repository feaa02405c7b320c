----------------------------- MODULE Pex25Trace -----------------------------
(* Each record: the runs on one layout; run = [o = options, crash, caps, res = <<[a, b, v]>>]                      *)
EXTENDS Pex25, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Get(s, a, b) == {o.v : o \in {x \in Range(s) : {x.a, x.b} = {a, b}}}
Same(s, t) == /\ Len(s) = Len(t)
              /\ \A o \in Range(s) : \E v \in Get(t, o.a, o.b) : Abs(v - o.v) <= 1
Verdict(r) ==
  UNION {
    IF \E x \in Range(r.runs) : x.crash THEN {"crash"} ELSE {},
    IF \E x \in Range(r.runs) : ~x.crash /\ ~NeedC(EffMode(x.o)) /\ x.caps # <<>> THEN {"capacitances-in-mode-R"} ELSE {},
    IF \E x \in Range(r.runs) : ~x.crash /\ ~NeedR(EffMode(x.o)) /\ x.res # <<>> THEN {"resistances-in-mode-CC"} ELSE {},
    IF \E x, y \in Range(r.runs) : /\ ~x.crash /\ ~y.crash /\ NeedC(EffMode(x.o)) /\ NeedC(EffMode(y.o))
                                   /\ CKey(x.o, r.halo) = CKey(y.o, r.halo) /\ ~Same(x.caps, y.caps)
    THEN {"capacitances-differ"} ELSE {},
    IF \E x, y \in Range(r.runs) : /\ ~x.crash /\ ~y.crash /\ NeedR(EffMode(x.o)) /\ NeedR(EffMode(y.o))
                                   /\ RKey(x.o) = RKey(y.o) /\ ~Same(x.res, y.res)
    THEN {"resistances-differ"} ELSE {} }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
