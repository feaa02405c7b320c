------------------------------ MODULE Lateral ------------------------------
(* The strip beside one edge of a polygon (net 1, layer K), looked at outwards, distance 1..D.  The extractor        *)
(* handles the layers found in the strip one after the other, in no particular order: the same layer yields the       *)
(* sidewall coupling, every other layer a fringe coupling that is cut by lateral and vertical shields.                *)
(* Deliberate deviation kept from the code: an opposing edge of the SAME polygon shields the fringe field, but it     *)
(* does not hide another polygon behind it from the sidewall rule (the golden results of the repository rely on it).  *)
EXTENDS Stack25D, TLC
CONSTANTS NLayers, K, D, NNets
Own == NNets + 1          \* on layer K: an opposing part of the same polygon (its net is 1)
Vals(k) == IF k = K THEN 0..(NNets + 1) ELSE 0..NNets
Strips == {s \in [1..NLayers -> [1..D -> 0..(NNets + 1)]] : \A k \in 1..NLayers : \A d \in 1..D : s[k][d] \in Vals(k)}
NetOfVal(v) == IF v = Own THEN 1 ELSE v

VARIABLES s, todo, near, side, tab
vars == <<s, todo, near, side, tab>>
INF == D + 1
FirstOf(S) == IF S = {} THEN INF ELSE Min(S)

Init == /\ s \in Strips
        /\ todo = {K} /\ near = INF /\ side = {} /\ tab = {}

\* the same layer first: nearest edge (of anything) limits the fringe; nearest other polygon takes the sidewall
VisitLateral ==
    /\ K \in todo
    /\ LET any == FirstOf({d \in 1..D : s[K][d] # 0})
           oth == FirstOf({d \in 1..D : s[K][d] \notin {0, Own}})
       IN /\ near' = any
          /\ side' = IF oth # INF /\ s[K][oth] # 1 THEN {<<oth, s[K][oth]>>} ELSE {}
    /\ todo' = (0..NLayers) \ {K} /\ UNCHANGED <<s, tab>>

\* fringe to one other layer: cut by the layers strictly in between (any net), and beyond the lateral shield
VisitLayer(j) ==
    /\ j \in todo
    /\ LET between == IF j < K THEN (j+1)..(K-1) ELSE (K+1)..(j-1)
           shielded == {d \in 1..D : \E m \in between : m >= 1 /\ s[m][d] # 0} \cup {d \in 1..D : d >= near}
           present == IF j = 0 THEN 1..D ELSE {d \in 1..D : s[j][d] # 0}
           net(d) == IF j = 0 THEN 0 ELSE s[j][d]
       IN tab' = tab \cup {<<d, j, net(d)>> : d \in {d \in present \ shielded : net(d) # 1}}
    /\ todo' = todo \ {j} /\ UNCHANGED <<s, near, side>>

Next == VisitLateral \/ \E j \in (0..NLayers) \ {K} : K \notin todo /\ VisitLayer(j)
Spec == Init /\ [][Next]_vars
Done == todo = {}

ColAt(d) == [k \in 1..NLayers |-> NetOfVal(s[k][d])]
\* beside the edge, up to the first obstacle on the same layer, the field ends on the nearest conductor below and above
FringeIsNearest ==
    Done => tab = UNION {{<<d, j, NetOf(ColAt(d), j)>> : j \in FringeTargets(ColAt(d), K, 1)} :
                            d \in {d \in 1..D : \A e \in 1..d : s[K][e] = 0}}
\* per distance at most one target below and one above
AtMostTwo == \A d \in 1..D : Cardinality({t \in tab : t[1] = d /\ t[2] < K}) <= 1
                          /\ Cardinality({t \in tab : t[1] = d /\ t[2] > K}) <= 1
SidewallNearestOther == Done => \A t \in side : \A d \in 1..(t[1] - 1) : s[K][d] \in {0, Own}
NeverSelf == (\A t \in side : t[2] # 1) /\ (\A t \in tab : t[3] # 1)
\* vertical neighbours never block the sidewall, lateral neighbours never let fringe pass
NoFringeBehind == \A t \in tab : \A e \in 1..t[1] : s[K][e] = 0
=============================================================================
