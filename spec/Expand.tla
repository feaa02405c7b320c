------------------------------- MODULE Expand -------------------------------
(* From a capacitance matrix to capacitors between nets.                                                              *)
(* m : square matrix of integers; nets : the net of each row (the first one is the substrate)                         *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
RowSum(m, i) == SumTo(m[i], Len(m))
Mutual(m, nets) == {[i |-> i, j |-> j, a |-> nets[i], b |-> nets[j], v |-> -m[i][j]] : i \in DOMAIN m, j \in DOMAIN m}
ToGround(m, nets) == {[i |-> i, j |-> i, a |-> nets[i], b |-> nets[1], v |-> RowSum(m, i)] : i \in DOMAIN m \ {1}}
\* the capacitors, identified by their place in the matrix
Capacitors(m, nets) == {c \in {x \in Mutual(m, nets) : x.i < x.j} \cup ToGround(m, nets) : c.v > 0}
\* nets: names of the nets of the layout; the nets of the result
ResultNets(names) == names \cup {"FC_GND", "VSUBS", "GND"}
Shorts == {{"FC_GND", "GND"}, {"VSUBS", "GND"}}
=============================================================================
