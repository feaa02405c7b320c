---------------------------- MODULE ReduceTrace ----------------------------
(* Records: rec.orig, rec.zero, rec.red: the circuit given, reduced with threshold 0, reduced with threshold rec.th   *)
(*   [caps, ress : <<[a, b, v]>> (v rational: capacitance, resistance), mos : <<[key, w]>>, others, pins : <<string>>] *)
(*  rec.exact: capacitances can be added without rounding                                                            *)
(*  rec.visC / visR : nets seen by something else than capacitors / resistors (pins, other devices)                   *)
EXTENDS Network, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Set(s) == NRange(s)
\* nets joined by resistors of 0 ohm
RECURSIVE Join(_, _)
Join(rs, S) == LET T == S \cup UNION {{r.a, r.b} : r \in {x \in Set(rs) : x.v[1] = 0 /\ (x.a \in S \/ x.b \in S)}} IN IF T = S THEN S ELSE Join(rs, T)
Lowest(S) == CHOOSE n \in S : \A m \in S : n <= m
Rep(rs, n) == Lowest(Join(rs, {n}))
Mapped(es, rs) == [i \in DOMAIN es |-> [es[i] EXCEPT !.a = Rep(rs, es[i].a), !.b = Rep(rs, es[i].b)]]
Conductances(rs0, rs) == LET s == SelectSeq(rs, LAMBDA r : r.v[1] # 0) IN Mapped([i \in DOMAIN s |-> [s[i] EXCEPT !.v = QInv(@)]], rs0)
Total(s, key) == QSum([i \in DOMAIN s |-> IF s[i].key = key THEN s[i].w ELSE Zero])
Keys(s) == {x.key : x \in Set(s)}
Bag(s) == [x \in Set(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SmallerThan(v, th) == v[1] < th * v[2]
Off(s, th) == SelectSeq(s, LAMBDA e : e.v[1] # th * e.v[2])
Verdict(r) ==
  IF r.crash THEN {"crash"} ELSE
  LET o == r.orig z == r.zero t == r.red vC == Set(r.visC) vR == Set(r.visR)
      used == vC \cap vR IN
  UNION {
    IF \E m, n \in used : (Rep(o.ress, m) = Rep(o.ress, n)) # (Rep(z.ress, m) = Rep(z.ress, n)) THEN {"shorts"} ELSE {},
    IF Port(Mapped(o.caps, o.ress), {Rep(o.ress, n) : n \in vC}) # Port(Mapped(z.caps, o.ress), {Rep(o.ress, n) : n \in vC}) THEN {"capacitors-not-equivalent"} ELSE {},
    IF Port(Conductances(o.ress, o.ress), {Rep(o.ress, n) : n \in vR}) # Port(Conductances(o.ress, z.ress), {Rep(o.ress, n) : n \in vR}) THEN {"resistors-not-equivalent"} ELSE {},
    IF \E i, j \in DOMAIN z.caps : i < j /\ {z.caps[i].a, z.caps[i].b} = {z.caps[j].a, z.caps[j].b} THEN {"parallel-capacitors"} ELSE {},
    \* (one of exactly the threshold, a matter of rounding, may be kept or not)
    IF Bag(Off(t.caps, r.th)) # Bag(SelectSeq(Off(z.caps, r.th), LAMBDA e : ~SmallerThan(e.v, r.th))) \/ ~(Set(t.caps) \subseteq Set(z.caps)) THEN {"threshold"} ELSE {},
    \* (unless the capacitances can be added without rounding)
    IF r.exact /\ \E e \in Set(z.caps) : /\ e.v[1] = r.th * e.v[2] /\ e \notin Set(t.caps)
                                        /\ QSum([i \in DOMAIN o.caps |-> IF {o.caps[i].a, o.caps[i].b} = {e.a, e.b} THEN o.caps[i].v ELSE Zero]) = e.v
    THEN {"at-the-threshold"} ELSE {},
    IF Bag(t.ress) # Bag(z.ress) THEN {"resistors-removed"} ELSE {},
    IF Keys(o.mos) # Keys(t.mos) \/ \E k \in Keys(o.mos) : Total(o.mos, k) # Total(t.mos, k) THEN {"transistors"} ELSE {},
    IF Bag(o.others) # Bag(t.others) THEN {"other-devices"} ELSE {},
    IF o.pins # t.pins THEN {"pins"} ELSE {},
    IF r.modified THEN {"input-modified"} ELSE {} }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
