------------------------------ MODULE Stack25D ------------------------------
(* Vertical structure of a layout, as all three 2.5D capacitance rules see it.           *)
(* A column is a sequence col[1..N] of net numbers, bottom to top; 0 = no conductor.     *)
(* Layer 0 is the substrate (net number 0 of layer 0), which is present everywhere.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Occupied(col, k) == k = 0 \/ (k >= 1 /\ k <= Len(col) /\ col[k] # 0)

\* the net of layer k in a column; the substrate's net is 0
NetOf(col, k) == IF k = 0 THEN 0 ELSE col[k]

\* the nearest conductor strictly below / above layer k
Below(col, k) == Max({j \in 0..(k-1) : Occupied(col, j)})
AboveSet(col, k) == {j \in (k+1)..Len(col) : Occupied(col, j)}

\* two layers face each other in a column: nothing in between
Facing(col, i, j) == /\ i < j /\ Occupied(col, i) /\ Occupied(col, j)
                     /\ \A k \in (i+1)..(j-1) : ~Occupied(col, k)

\* the couplings <<bottom layer, top layer>> of one column, each pair of different nets that face each other
Couplings(col) == {ij \in (0..Len(col)) \X (1..Len(col)) :
                      Facing(col, ij[1], ij[2]) /\ NetOf(col, ij[1]) # NetOf(col, ij[2])}

\* targets of the fringe field of net a on layer k within one column beside it: the nearest conductor below and above
FringeTargets(col, k, a) ==
    {j \in ({Below(col, k)} \cup (IF AboveSet(col, k) = {} THEN {} ELSE {Min(AboveSet(col, k))})) : NetOf(col, j) # a}
=============================================================================
