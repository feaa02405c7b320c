------------------------------ MODULE Overlap ------------------------------
(* Overlap (parallel plate) extraction as the code performs it: each polygon of a layer looks upwards, layer by layer,  *)
(* and everything already seen above it shields what lies higher.  Polygons may be visited in any order.               *)
EXTENDS Stack25D, TLC
CONSTANTS NLayers, Cols, NNets

Layers == 0..NLayers
Lays == [1..NLayers -> [Cols -> 0..NNets]]
Col(L, c) == [k \in 1..NLayers |-> L[k][c]]
\* polygons: layer and net
Items(L) == {<<0, 0>>} \cup ({<<k, L[k][c]>> : k \in 1..NLayers, c \in Cols} \ ((1..NLayers) \X {0}))
ItemCols(L, it) == IF it[1] = 0 THEN Cols ELSE {c \in Cols : L[it[1]][c] = it[2]}

VARIABLES lay,      \* the layout
          todo,     \* polygons not yet visited
          cur,      \* the polygon being visited, or <<>>
          top,      \* the layer it looks at next
          shield,   \* columns already shielded for it
          tab,      \* couplings emitted so far: <<column, bottom layer, top layer>>
          dup       \* a coupling was emitted a second time
vars == <<lay, todo, cur, top, shield, tab, dup>>

Init == /\ lay \in Lays
        /\ todo = Items(lay) /\ cur = <<>> /\ top = 0 /\ shield = {} /\ tab = {} /\ dup = FALSE

Begin == /\ cur = <<>> /\ todo # {}
         /\ \E it \in todo : cur' = it /\ todo' = todo \ {it} /\ top' = it[1] + 1
         /\ shield' = {} /\ UNCHANGED <<lay, tab, dup>>

Look == /\ cur # <<>> /\ top <= NLayers
        /\ LET above == {c \in ItemCols(lay, cur) : lay[top][c] # 0}
               emit == {<<c, cur[1], top>> : c \in {c \in above \ shield : lay[top][c] # cur[2]}}
           IN /\ tab' = tab \cup emit
              /\ dup' = (dup \/ emit \cap tab # {})
              /\ shield' = shield \cup above
        /\ top' = top + 1 /\ UNCHANGED <<lay, todo, cur>>

End == /\ cur # <<>> /\ top > NLayers /\ cur' = <<>> /\ top' = 0 /\ shield' = {} /\ UNCHANGED <<lay, todo, tab, dup>>

Next == Begin \/ Look \/ End
Spec == Init /\ [][Next]_vars

Done == cur = <<>> /\ todo = {}
\* the result is exactly the set of directly facing conductors of different nets
ResultIsFacing == Done => tab = UNION {{<<c, ij[1], ij[2]>> : ij \in Couplings(Col(lay, c))} : c \in Cols}
NeverTwice == ~dup
\* in a column, every conductor couples to at most one conductor above it and one below it
AtMostOneAbove == \A e, f \in tab : e[1] = f[1] /\ e[2] = f[2] => e = f
AtMostOneBelow == \A e, f \in tab : e[1] = f[1] /\ e[3] = f[3] => e = f
\* the substrate only couples to the lowest conductor
SubstrateSeesLowest == \A e \in tab : e[2] = 0 => \A k \in 1..(e[3]-1) : lay[k][e[1]] = 0
=============================================================================
