---------------------------- MODULE StackTrace ----------------------------
(* Probes into the model of a layout, as written for the field solver.                                                  *)
(* kn: the permittivity that stands for a dielectric                                                                    *)
(* Records: stack, um, nets (order), excl, layers (names), shapes <<[layer, net, x1, y1, x2, y2]>> in database units,   *)
(*  bx: <<x1, y1, x2, y2>>: bounding box of the layout,  crash, flaws,                                                  *)
(*  probes <<[x, y : hundredths of a unit, cross : <<[z, lo, hi]>>]>>                                                   *)
EXTENDS ModelStack, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Max2(a, b) == IF a > b THEN a ELSE b
Dist(s, x, y) == Max2(Max2(100 * s.x1 - x, x - 100 * s.x2), Max2(100 * s.y1 - y, y - 100 * s.y2))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
DistTo(r, n, x, y) == LET S == {Dist(s, x, y) : s \in {s \in SeqSet(r.shapes) : s.layer = n}} IN IF S = {} THEN Far ELSE MinOf(S)
ProbeVerdict(r, p) ==
  LET D == [n \in SeqSet(r.layers) |-> DistTo(r, n, p.x, p.y)]
      on == {<<s.net, s.layer>> : s \in {s \in SeqSet(r.shapes) : Dist(s, p.x, p.y) < 0}}
      h == (8 * r.um) \div 10
      box == Dist([x1 |-> r.bx[1] - h, y1 |-> r.bx[2] - h, x2 |-> r.bx[3] + h, y2 |-> r.bx[4] + h], p.x, p.y) < 0
      lab(n) == IF \E e \in SeqSet(r.kn) : e.n = n THEN (CHOOSE e \in SeqSet(r.kn) : e.n = n).k ELSE n
      want == {<<w[1], lab(w[2]), lab(w[3])>> : w \in Crossings(r.stack, r.nets, D, on, box, SeqSet(r.excl), r.um)}
      \* nets that touch without being connected: no layout has them
      shorted == \E w \in want : w[2] \in SeqSet(r.nets) \cup {"VSUBS"} /\ w[3] \in SeqSet(r.nets) \cup {"VSUBS"}
      got == {<<c.z, c.lo, c.hi>> : c \in SeqSet(p.cross)}
  IN IF shorted THEN {} ELSE UNION {IF got # want THEN {"wrong-layer-or-height"} ELSE {},
            IF Len(p.cross) # Cardinality(got) THEN {"face-twice"} ELSE {}}
Verdict(r) == IF r.crash THEN {"crash"} ELSE
  UNION {SeqSet(r.flaws), UNION {ProbeVerdict(r, p) : p \in SeqSet(r.probes)}}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
