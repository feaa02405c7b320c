------------------------------- MODULE Solid -------------------------------
(* A three-dimensional model: bodies (conductors and dielectrics) made of layers, each a set of cells of the plane and *)
(* a range of heights. Where bodies overlap, the first one in `order` owns the space; where none is, it is void ("").  *)
(*  layer = [name, cells, z0, z1]: heights z with z0 <= z < z1                                                         *)
EXTENDS Integers, Sequences, FiniteSets
Covers(L, q, z) == q \in L.cells /\ L.z0 <= z /\ z < L.z1
RECURSIVE FirstOf(_, _, _, _)
FirstOf(order, layers, q, z) == IF order = <<>> THEN ""
   ELSE IF \E L \in layers : L.name = Head(order) /\ Covers(L, q, z) THEN Head(order) ELSE FirstOf(Tail(order), layers, q, z)
Owner(order, layers, q, z) == FirstOf(order, layers, q, z)
\* faces: everywhere between two different owners, once. lo / hi: the owners on both sides
HorizontalFaces(order, layers, cells, zs) ==
   {f \in {[q |-> q, k |-> k, lo |-> IF k = 1 THEN "" ELSE Owner(order, layers, q, zs[k - 1]),
            hi |-> IF k = Len(zs) THEN "" ELSE Owner(order, layers, q, zs[k])] : q \in cells, k \in 1..Len(zs)} : f.lo # f.hi}
=============================================================================
