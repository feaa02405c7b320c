------------------------------- MODULE ResNet -------------------------------
(* A network that is built port by port: putting a port on a wire splits the resistor it falls on into two that   *)
(* add up to it. Invariants: the chain that this leaves is the declarative one (ResWires), every wire keeps its   *)
(* end to end resistance, each net's network is connected and is a tree unless vias close a loop.                 *)
EXTENDS ResWires, TLC
CONSTANTS L, NWires, MaxPorts
\* wire i is on layer i, all run in x direction from 0 to L at y = 0; vias only join neighbouring layers
Wires == [i \in 1..NWires |-> [k |-> i, x1 |-> 0, y1 |-> -1, x2 |-> L, y2 |-> 1, h |-> TRUE, rho |-> i + 1]]
VARIABLES pins, vias, res
vars == <<pins, vias, res>>
Nodes == AllNodes(pins, {}, vias)
Init == pins = {} /\ vias = {} /\ res = {}
Free(k, x) == \A n \in Nodes : ~(n[1] = k /\ n[3] + n[5] = 2 * x)
\* split or extend the chain of wire k at the new node n
Put(rs, k, n, old) ==
    LET w == Wires[k]
        ports == PortsOn(w, old)
        left == {p \in ports : Pos2(w, p) < Pos2(w, n)}
        right == {p \in ports : Pos2(w, p) > Pos2(w, n)}
        a == CHOOSE p \in left : \A q \in left : Pos2(w, q) <= Pos2(w, p)
        b == CHOOSE p \in right : \A q \in right : Pos2(w, q) >= Pos2(w, p)
        seg(p, q) == <<{p, q}, w.rho * (Pos2(w, q) - Pos2(w, p)), 2 * Width(w)>>
    IN (rs \ (IF left # {} /\ right # {} THEN {seg(a, b)} ELSE {}))
       \cup (IF left # {} THEN {seg(a, n)} ELSE {}) \cup (IF right # {} THEN {seg(n, b)} ELSE {})
AddPin(k, x) == /\ Free(k, x) /\ Cardinality(Nodes) < MaxPorts
                /\ pins' = pins \cup {[k |-> k, x |-> x, y |-> 0]}
                /\ res' = Put(res, k, Node(k, "pin", x, 0, x, 0), Nodes)
                /\ UNCHANGED vias
AddVia(k, x) == /\ Free(k, x) /\ Free(k + 1, x) /\ Cardinality(Nodes) + 1 < MaxPorts
                /\ LET v == [k |-> k, kt |-> k + 1, x1 |-> x, y1 |-> 0, x2 |-> x, y2 |-> 0, num |-> 7]
                   IN /\ vias' = vias \cup {v}
                      /\ res' = Put(Put(res, k, ViaLow(v), Nodes), k + 1, ViaTop(v), Nodes) \cup {ViaRes(v)}
                /\ UNCHANGED pins
Next == \/ \E k \in 1..NWires, x \in 0..L : AddPin(k, x)
        \/ \E k \in 1..(NWires - 1), x \in 0..L : AddVia(k, x)
Spec == Init /\ [][Next]_vars
AsDeclared == res = UNION {WireRes(Wires[k], Nodes) : k \in 1..NWires} \cup {ViaRes(v) : v \in vias}
Sum(S) == LET RECURSIVE s(_) s(T) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN e[2] + s(T \ {e}) IN s(S)
EndToEnd == \A k \in 1..NWires : LET p == PortsOn(Wires[k], Nodes) IN p # {} =>
              \E a, b \in p : /\ \A c \in p : Pos2(Wires[k], a) <= Pos2(Wires[k], c) /\ Pos2(Wires[k], c) <= Pos2(Wires[k], b)
                              /\ Sum({e \in res : e[1] \subseteq p}) = Wires[k].rho * (Pos2(Wires[k], b) - Pos2(Wires[k], a))
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {n \in Nodes : \E e \in res : n \in e[1] /\ e[1] \cap S # {}} IN IF T = S THEN S ELSE Reach(T)
NetNodes(net) == UNION {PortsOn(Wires[i], Nodes) : i \in net}
NetsAreNetworks == \A net \in Nets(Wires, vias) : \A n \in NetNodes(net) : Reach({n}) = NetNodes(net)
Degree == Cardinality(res) + Cardinality({k \in 1..NWires : PortsOn(Wires[k], Nodes) # {}}) = Cardinality(Nodes) + Cardinality(vias)
=============================================================================
