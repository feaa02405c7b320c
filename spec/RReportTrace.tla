---------------------------- MODULE RReportTrace ----------------------------
(* Each record: a layout of wires, vias, pins and device terminals, the resistor networks in the results of the real   *)
(* extractor and what the report file shows.  Coordinates in database units, m: milliohm, n: nanoohm (if below 1 mOhm) *)
(*  r.nets     = <<[net, nodes = <<[name, pnet, layer, box]>>, els = <<[a, b, m, n]>>]>> (a, b: positions in nodes)     *)
(*  r.snodes   = <<[net, name, pnet, layer, box]>>, r.sels = <<[net, a, la, b, lb, m, n, box]>>                        *)
(*  r.spins    = <<[where, label, net, layer, box]>> (where: "" or the net's request), r.sterms = <<[where, net, layer, box]>> *)
(*  r.sregs    = <<[net, layer, box]>>                                                                                *)
EXTENDS ResWires, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
Range2(s) == {s[i] : i \in DOMAIN s}
MidX(b) == b[1] + b[3]          \* twice the centre
MidY(b) == b[2] + b[4]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Around(x, y) == <<x - 5, y - 5, x + 5, y + 5>>
\* a line from the centre of one box to that of another, some database units wide
Arrow(box, a, b) == /\ Abs(2 * box[1] - Min2(MidX(a), MidX(b))) <= 10 /\ Abs(2 * box[3] - Max2(MidX(a), MidX(b))) <= 10
                    /\ Abs(2 * box[2] - Min2(MidY(a), MidY(b))) <= 10 /\ Abs(2 * box[4] - Max2(MidY(a), MidY(b))) <= 10
SameValue(e, s) == IF e.m = 0 THEN Abs(e.n - s.n) <= 1 ELSE Abs(e.m - s.m) <= 1
Bag(s) == [x \in Range2(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]

Verdict(r) ==
  IF r.crash THEN {"crash"} ELSE
  LET nodes == UNION {{[net |-> o.net, name |-> n.name, pnet |-> n.pnet, layer |-> n.layer, box |-> n.box] : n \in Range2(o.nodes)} : o \in Range2(r.nets)}
      total == FoldLeft(LAMBDA s, o : s + Len(o.nodes), 0, r.nets)
      elsOf(o) == {i \in DOMAIN r.sels : r.sels[i].net = o.net}
      \* the elements of a network and those shown, one to one (nodes have names that are unique within a network)
      shows(o, e, i) == LET s == r.sels[i] a == o.nodes[e.a] b == o.nodes[e.b]
                        IN /\ \/ s.a = a.name /\ s.la = a.layer /\ s.b = b.name /\ s.lb = b.layer
                              \/ s.b = a.name /\ s.lb = a.layer /\ s.a = b.name /\ s.la = b.layer
                           /\ SameValue(e, s)
      pinsWanted == {<<p.label, p.layer, Around(p.x, p.y)>> : p \in Range2(r.pins)}
      pinsAt(w) == [i \in 1..Len(SelectSeq(r.spins, LAMBDA p : p.where = w)) |-> SelectSeq(r.spins, LAMBDA p : p.where = w)[i]]
      ports == {<<n.layer, n.box>> : n \in nodes}
      wiresOf(net) == {<<r.wires[i].layer, r.wires[i].box>> : i \in net}
      regs(name) == {<<g.layer, g.box>> : g \in {x \in Range2(r.sregs) : x.net = name}}
      pieces(net) == {<<t.layer, t.box>> : t \in Range2(r.terms)}
      wnets == Nets(r.wires, Range2(r.vias))
  IN UNION {
     IF r.junk > 0 THEN {"not-readable"} ELSE {},
     IF {s : s \in Range2(r.snodes)} # nodes \/ Len(r.snodes) # total THEN {"nodes"} ELSE {},
     IF \E o \in Range2(r.nets) : Cardinality(elsOf(o)) # Len(o.els) \/ \E e \in Range2(o.els) : ~\E i \in elsOf(o) : shows(o, e, i) THEN {"elements"} ELSE {},
     IF \E o \in Range2(r.nets) : \E i \in elsOf(o) : ~\E e \in Range2(o.els) : shows(o, e, i) THEN {"elements"} ELSE
     IF \E o \in Range2(r.nets) : \E i \in elsOf(o) : \A e \in Range2(o.els) : shows(o, e, i) => ~Arrow(r.sels[i].box, o.nodes[e.a].box, o.nodes[e.b].box)
     THEN {"element-marker"} ELSE {},
     IF {s.net : s \in Range2(r.sels)} \ {o.net : o \in Range2(r.nets)} # {} THEN {"elements"} ELSE {},
     \* the request: every pin, terminal and wire
     IF {<<p.label, p.layer, p.box>> : p \in Range2(pinsAt(""))} # pinsWanted \/ Len(pinsAt("")) # Len(r.pins) THEN {"pins"} ELSE {},
     IF \E p \in Range2(r.spins) : p.where # "" /\ (p.net # p.where \/ [p EXCEPT !.where = ""] \notin Range2(r.spins)) THEN {"pins-of-net"} ELSE {},
     IF \E p \in Range2(pinsAt("")) : p.net \in {o.net : o \in Range2(r.nets)} /\ [p EXCEPT !.where = p.net] \notin Range2(r.spins) THEN {"pins-of-net"} ELSE {},
     IF {<<t.layer, t.box>> : t \in {x \in Range2(r.sterms) : x.where = ""}} # {<<t.layer, t.box>> : t \in Range2(r.terms)} THEN {"terminals"} ELSE {},
     IF \E t \in Range2(r.sterms) : t.where # "" /\ t.net # t.where THEN {"terminals-of-net"} ELSE {},
     IF \E t \in Range2(r.sterms) : t.where = "" /\ t.net \in {o.net : o \in Range2(r.nets)} /\ [t EXCEPT !.where = t.net] \notin Range2(r.sterms) THEN {"terminals-of-net"} ELSE {},
     IF \E o \in Range2(r.nets) : o.nodes # <<>> /\ ~\E net \in wnets : wiresOf(net) = regs(o.net) \cap {<<w.layer, w.box>> : w \in Range2(r.wires)}
     THEN {"regions"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
