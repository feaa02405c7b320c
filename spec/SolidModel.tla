---------------------------- MODULE SolidModel ----------------------------
(* The model is made by a sweep over the heights at which layers begin and end, counting for every body and cell how   *)
(* many of its layers are open. What the sweep emits is the boundary of the bodies, and every body is closed.          *)
EXTENDS Solid, TLC
CONSTANTS Cells, Levels, MaxLayers
Conductors == <<"A">>
Materials == <<"m", "n">>
Order == Conductors \o Materials
Names == {Order[i] : i \in DOMAIN Order}
Layer == {L \in [name : Names, cells : SUBSET Cells, z0 : 1..Levels, z1 : 1..Levels] : L.z0 <= L.z1 /\ L.cells # {}}
VARIABLES layers, z, open, hfaces, vfaces
vars == <<layers, z, open, hfaces, vfaces>>
Init == layers = {} /\ z = 0 /\ open = [n \in Names |-> [q \in Cells |-> 0]] /\ hfaces = {} /\ vfaces = {}
Add == z = 0 /\ Cardinality(layers) < MaxLayers /\ \E L \in Layer : layers' = layers \cup {L} /\ UNCHANGED <<z, open, hfaces, vfaces>>
RECURSIVE Top(_, _, _)
Top(o, op, q) == IF o = <<>> THEN "" ELSE IF op[Head(o)][q] > 0 THEN Head(o) ELSE Top(Tail(o), op, q)
Count(S) == Cardinality(S)
Sweep == /\ z < Levels
         /\ z' = z + 1
         /\ open' = [n \in Names |-> [q \in Cells |-> open[n][q]
                       + Count({L \in layers : L.name = n /\ q \in L.cells /\ L.z0 = z' /\ L.z1 > z'})
                       - Count({L \in layers : L.name = n /\ q \in L.cells /\ L.z1 = z' /\ L.z0 < z'})]]
         /\ hfaces' = hfaces \cup {f \in {[q |-> q, k |-> z', lo |-> Top(Order, open, q), hi |-> Top(Order, open', q)] : q \in Cells} : f.lo # f.hi}
         /\ vfaces' = vfaces \cup {f \in {[p |-> p, q |-> p + 1, k |-> z', lo |-> Top(Order, open', p), hi |-> Top(Order, open', p + 1)] :
                                          p \in {p \in Cells : p + 1 \in Cells}} : f.lo # f.hi}
         /\ UNCHANGED layers
Next == Add \/ Sweep
Spec == Init /\ [][Next]_vars
Zs == [k \in 1..Levels |-> k]
Done == z = Levels
\* a layer that has not ended yet is cut off by the last level
Partition == z > 0 => \A q \in Cells : Top(Order, open, q) = IF z = Levels THEN "" ELSE Owner(Order, layers, q, z)
Boundary == Done => hfaces = HorizontalFaces(Order, layers, Cells, Zs)
\* going up through a column, a body is entered and left in turn, and is left in the end
Closed == Done => \A n \in Names, q \in Cells :
   /\ Count({f \in hfaces : f.q = q /\ f.hi = n}) = Count({f \in hfaces : f.q = q /\ f.lo = n})
   /\ \A k \in 1..Levels : Count({f \in hfaces : f.q = q /\ f.k <= k /\ f.hi = n}) - Count({f \in hfaces : f.q = q /\ f.k <= k /\ f.lo = n}) \in {0, 1}
\* the walls meet the floors: where a body has a wall in a slab but none above, a floor or ceiling ends there
Walls == Done => \A f \in vfaces : f.k < Levels /\ f.lo = Owner(Order, layers, f.p, f.k) /\ f.hi = Owner(Order, layers, f.q, f.k)
=============================================================================
