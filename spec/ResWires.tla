------------------------------ MODULE ResWires ------------------------------
(* Resistor networks of straight wires, vias and ports.                                                          *)
(*   wire  = [k, x1, y1, x2, y2, h, rho]   k layer, h: runs in x direction, rho sheet resistance                  *)
(*   via   = [k, kt, x1, y1, x2, y2, num]  from layer k up to layer kt, num = resistance x cut area               *)
(*   point = [k, x, y] (a pin label), term = [k, x1, y1, x2, y2] (a device terminal)                              *)
(* A port of a wire is a pin, a device terminal or the end of a via that lies on it. A wire is a chain of         *)
(* resistors between neighbouring ports.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets
Node(k, kind, x1, y1, x2, y2) == <<k, kind, x1, y1, x2, y2>>
PinNodes(pins) == {Node(p.k, "pin", p.x, p.y, p.x, p.y) : p \in pins}
TermNodes(terms) == {Node(t.k, "term", t.x1, t.y1, t.x2, t.y2) : t \in terms}
ViaLow(v) == Node(v.k, "via", v.x1, v.y1, v.x2, v.y2)
ViaTop(v) == Node(v.kt, "via", v.x1, v.y1, v.x2, v.y2)
ViaNodes(vias) == {ViaLow(v) : v \in vias} \cup {ViaTop(v) : v \in vias}
AllNodes(pins, terms, vias) == PinNodes(pins) \cup TermNodes(terms) \cup ViaNodes(vias)
On(w, n) == /\ n[1] = w.k
            /\ n[3] + n[5] >= 2 * w.x1 /\ n[3] + n[5] <= 2 * w.x2
            /\ n[4] + n[6] >= 2 * w.y1 /\ n[4] + n[6] <= 2 * w.y2
PortsOn(w, nodes) == {n \in nodes : On(w, n)}
Pos2(w, n) == IF w.h THEN n[3] + n[5] ELSE n[4] + n[6]        \* twice the centre position
Width(w) == IF w.h THEN w.y2 - w.y1 ELSE w.x2 - w.x1
\* resistor between two nodes: <<{a, b}, numerator, denominator>>
Neighbours(w, ports) == {ab \in ports \X ports : /\ Pos2(w, ab[1]) < Pos2(w, ab[2])
                                                /\ \A c \in ports : ~(Pos2(w, ab[1]) < Pos2(w, c) /\ Pos2(w, c) < Pos2(w, ab[2]))}
WireRes(w, nodes) == {<<{ab[1], ab[2]}, w.rho * (Pos2(w, ab[2]) - Pos2(w, ab[1])), 2 * Width(w)>> : ab \in Neighbours(w, PortsOn(w, nodes))}
ViaRes(v) == <<{ViaLow(v), ViaTop(v)}, v.num, (v.x2 - v.x1) * (v.y2 - v.y1)>>
\* the nets: wires joined by vias; a net is a set of wire indexes
RECURSIVE Closure(_, _)
Closure(S, adj) == LET T == S \cup UNION {adj[i] : i \in S} IN IF T = S THEN S ELSE Closure(T, adj)
Adjacent(wires, vias) == [i \in DOMAIN wires |-> {j \in DOMAIN wires : \E v \in vias :
                              \/ On(wires[i], ViaLow(v)) /\ On(wires[j], ViaTop(v))
                              \/ On(wires[j], ViaLow(v)) /\ On(wires[i], ViaTop(v))}]
Nets(wires, vias) == LET adj == Adjacent(wires, vias) IN {Closure({i}, adj) : i \in DOMAIN wires}
=============================================================================
