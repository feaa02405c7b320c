---------------------------- MODULE HierModel ----------------------------
(* Nets found cell by cell (clusters of a cell are handed to the cells that place it and joined there) are the nets of the flat layout,
   and a name taken from the path of the instance separates what only the definition of a cell makes look alike *)
EXTENDS Hier
CONSTANT Wide
BoxSet == {<<1,0,0,2,2>>, <<2,2,0,4,2>>, <<1,0,0,6,1>>} \cup IF Wide THEN {<<2,0,2,1,5>>} ELSE {}
Disps == {<<0,0>>, <<3,1>>} \cup IF Wide THEN {<<1,4>>} ELSE {}
Cnn == {{1}, {2}, {1, 2}}
VARIABLE lay
Init == \E k, c, t \in BoxSet, t2 \in BoxSet, d1, d2, e1 \in Disps, q \in 0..3, m \in 0..1 :
          lay = << [boxes |-> <<k, c>>, texts |-> <<>>, insts |-> <<>>],
                   [boxes |-> <<t>>, texts |-> <<>>, insts |-> <<<<1, d1[1], d1[2], 0, m, 1, 0, 0>>, <<1, d2[1], d2[2], q, 0, 1, 0, 0>>>>],
                   [boxes |-> <<t2>>, texts |-> <<>>, insts |-> <<<<2, e1[1], e1[2], 0, 0, 2, 6, 0>>>>] >>
Next == UNCHANGED lay
Spec == Init /\ [][Next]_lay

None(i, j) == FALSE
Flat == LET B == FlatBoxes(lay, Len(lay)) IN Nets(B, Cnn, None)
(* the clusters of cell c: a set of sets of indexes into FlatBoxes(lay, c) *)
RECURSIVE Clusters(_)
Offset(c, j) == Len(lay[c].boxes) + IF j = 1 THEN 0 ELSE
   LET RECURSIVE Sum(_)
       Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + lay[c].insts[i][6] * Len(FlatBoxes(lay, lay[c].insts[i][1]))
   IN Sum(j - 1)
Clusters(c) ==
  LET B == FlatBoxes(lay, c)
      own == {{i} : i \in 1..Len(lay[c].boxes)}
      sub == UNION {UNION {{ {Offset(c, j) + k * Len(FlatBoxes(lay, lay[c].insts[j][1])) + i : i \in s} : s \in Clusters(lay[c].insts[j][1])}
                           : k \in 0..(lay[c].insts[j][6] - 1)} : j \in 1..Len(lay[c].insts)}
      S == SetToSeq(own \cup sub)
      f == Comps(1..Len(S), LAMBDA a, b : \E i \in S[a], j \in S[b] : Linked(Cnn, B[i], B[j]))
  IN {UNION {S[a] : a \in {x \in 1..Len(S) : f[x] = m}} : m \in {f[x] : x \in 1..Len(S)}}
HierIsFlat == LET f == Flat IN Clusters(Len(lay)) = {{i \in DOMAIN f : f[i] = m} : m \in {f[i] : i \in DOMAIN f}}
=============================================================================
