------------------------------ MODULE ResTrace ------------------------------
(* Each record: a layout of wires, vias, pins, device terminals, and the networks that the extractor returned.    *)
(* rec.nets = <<[name, parts (labels in the name), auto, nodes = <<[id, k, kind, x1, y1, x2, y2, net]>>, els = <<[a, b, v]>>]>>, v in mOhm      *)
EXTENDS ResWires, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
ONode(n) == Node(n.k, n.kind, n.x1, n.y1, n.x2, n.y2)
ONodes(o) == {ONode(n) : n \in Range(o.nodes)}
ById(o, id) == LET s == {n \in Range(o.nodes) : n.id = id} IN IF Cardinality(s) = 1 THEN ONode(CHOOSE n \in s : TRUE) ELSE <<>>

Verdict(r) ==
  IF r.crash THEN {"crash"} ELSE
  LET wires == r.wires
      vias == Range(r.vias)
      terms == Range(r.terms)
      pins == Range(r.pins)
      nodes == AllNodes(pins, terms, vias)
      nets == Nets(wires, vias)
      netNodes(net) == UNION {PortsOn(wires[i], nodes) : i \in net}
      netRes(net) == UNION {WireRes(wires[i], nodes) : i \in net} \cup {ViaRes(v) : v \in {u \in vias : \E i \in net : On(wires[i], ViaLow(u))}}
      labels(net) == {p.label : p \in {q \in pins : \E i \in net : On(wires[i], Node(q.k, "pin", q.x, q.y, q.x, q.y))}}
      obs == Range(r.nets)
      \* the observed networks that belong to a net
      of(net) == IF netNodes(net) = {}
                 THEN {}
                 ELSE {o \in obs : ONodes(o) \cap netNodes(net) # {}}
      elOK(o, e) == \E x \in netRes(CHOOSE net \in nets : o \in of(net)) :
                        /\ x[1] = {ById(o, e.a), ById(o, e.b)}
                        /\ e.v >= ((x[2] + x[3] - 1) \div x[3]) - 1          \* x[2] / x[3], to 1 mOhm (a product might overflow)
                        /\ e.v <= (x[2] \div x[3]) + 1
      internal == [o \in obs |-> {n \in Range(o.nodes) : n.kind = "via"}]
  IN UNION {
     IF \E o \in obs : o.nodes # <<>> /\ Cardinality({net \in nets : o \in of(net)}) # 1 THEN {"network-without-net"} ELSE
     UNION {
       IF \E o \in obs : o.nodes # <<>> /\ \E e \in Range(o.els) : ~elOK(o, e) THEN {"wrong-resistor"} ELSE {},
       IF \E net \in nets : \E o \in of(net) : Len(o.els) # Cardinality(netRes(net)) THEN {"resistor-count"} ELSE {} },
     IF \E net \in nets : netNodes(net) # {} /\ Cardinality(of(net)) # 1 THEN {"net-without-one-network"} ELSE
     UNION {
       IF \E net \in nets : \E o \in of(net) : ONodes(o) # netNodes(net) \/ Len(o.nodes) # Cardinality(netNodes(net)) THEN {"nodes"} ELSE {},
       IF \E net \in nets : \E o \in of(net) : ~(IF labels(net) = {} THEN o.auto ELSE labels(net) = Range(o.parts)) THEN {"network-name"} ELSE {} },
     IF Cardinality({o.name : o \in obs}) # Len(r.nets) THEN {"two-networks-of-one-name"} ELSE {},
     IF \E o \in obs : \E n \in Range(o.nodes) : n.kind # "via" /\ n.net # o.name THEN {"port-net"} ELSE {},
     IF LET all == UNION {{<<o.name, n.id, n.net>> : n \in internal[o]} : o \in obs}
        IN Cardinality({t[3] : t \in all}) # Cardinality(all) \/ {t[3] : t \in all} \cap {o.name : o \in obs} # {}
     THEN {"internal-names-not-unique"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
