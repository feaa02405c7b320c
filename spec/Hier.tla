------------------------------- MODULE Hier -------------------------------
(* Hierarchical layouts and their electrical nets.
   A layout is a sequence of cells (a cell only places cells before it, the last one is the top cell):
     cell == [boxes: Seq(<<layer, x1, y1, x2, y2>>), texts: Seq(<<label layer, x, y, string>>),
              insts: Seq(<<cell, x, y, rot, mirror, nx, dx, dy>>)]           rot: quarter turns, mirror at the x axis first
   Layers are conductors when the connectivity lists them.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Rot(q, p) == CASE q = 0 -> p [] q = 1 -> <<0 - p[2], p[1]>> [] q = 2 -> <<0 - p[1], 0 - p[2]>> [] OTHER -> <<p[2], 0 - p[1]>>
Mir(m, p) == IF m = 1 THEN <<p[1], 0 - p[2]>> ELSE p
Move(i, k, p) == LET q == Rot(i[4], Mir(i[5], p)) IN <<q[1] + i[2] + k * i[7], q[2] + i[3] + k * i[8]>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MoveBox(i, k, b) == LET p == Move(i, k, <<b[2], b[3]>>)
                        q == Move(i, k, <<b[4], b[5]>>)
                    IN <<b[1], Min2(p[1], q[1]), Min2(p[2], q[2]), Max2(p[1], q[1]), Max2(p[2], q[2])>>
MoveText(i, k, t) == LET p == Move(i, k, <<t[2], t[3]>>) IN <<t[1], p[1], p[2], t[4]>>
Places(i) == [k \in 1..i[6] |-> k - 1]

RECURSIVE FlatBoxes(_, _), FlatTexts(_, _)
FlatBoxes(L, c) == L[c].boxes \o FlattenSeq([j \in 1..Len(L[c].insts) |->
   LET i == L[c].insts[j]
       sub == FlatBoxes(L, i[1])
   IN FlattenSeq([k \in 1..i[6] |-> [s \in 1..Len(sub) |-> MoveBox(i, k - 1, sub[s])]])])
FlatTexts(L, c) == L[c].texts \o FlattenSeq([j \in 1..Len(L[c].insts) |->
   LET i == L[c].insts[j]
       sub == FlatTexts(L, i[1])
   IN FlattenSeq([k \in 1..i[6] |-> [s \in 1..Len(sub) |-> MoveText(i, k - 1, sub[s])]])])

Touch(a, b) == a[2] <= b[4] /\ b[2] <= a[4] /\ a[3] <= b[5] /\ b[3] <= a[5]
On(t, b) == b[2] <= t[2] /\ t[2] <= b[4] /\ b[3] <= t[3] /\ t[3] <= b[5]

(* connectivity: a set of {layer} (a conductor) and {layer1, layer2} (shapes of the two connect where they touch) *)
Linked(Conn, a, b) == {a[1], b[1]} \in Conn /\ Touch(a, b)

(* the least index of the component, for every element of a finite undirected graph *)
RECURSIVE Settle(_, _, _)
Settle(D, adj, f) == LET g == [i \in D |-> CHOOSE m \in {f[j] : j \in adj[i]} : \A j \in adj[i] : m <= f[j]]
                     IN IF g = f THEN f ELSE Settle(D, adj, g)
Comps(D, E(_, _)) == LET adj == TLCEval([i \in D |-> {j \in D : j = i \/ E(i, j) \/ E(j, i)}]) IN Settle(D, adj, [i \in D |-> i])

(* nets of the layout: same: further pairs of shapes that belong together (joined labels, global nets) *)
Nets(B, Conn, Same(_, _)) == Comps({i \in 1..Len(B) : {B[i][1]} \in Conn}, LAMBDA i, j : Linked(Conn, B[i], B[j]) \/ Same(i, j))
=============================================================================
