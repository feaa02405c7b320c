---------------------------- MODULE StarMeshModel ----------------------------
(* Networks of N nodes are reduced node by node, in any order, or nodes are joined: what the others see stays.         *)
EXTENDS StarMesh, TLC
CONSTANTS N, Values, Keep
VARIABLES g0, g
vars == <<g0, g>>
Nodes == 1..N
Pairs == {e \in SUBSET Nodes : Cardinality(e) = 2}
Nets == {[nodes |-> Nodes, c |-> [e \in {e \in Pairs : f[e] # 0} |-> <<f[e], 1>>]] : f \in [Pairs -> Values]}
Init == g0 \in Nets /\ g = g0
Reduce == \E n \in g.nodes \ Keep : g' = Elim(g, n) /\ UNCHANGED g0
Next == Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Unit(h, i) == [m \in h.nodes |-> IF m = i THEN <<1, 1>> ELSE <<0, 1>>]
\* a step keeps the currents at all other nodes, for all potentials there (linear: unit potentials suffice)
StepKeeps == [][\A n \in g.nodes \ g'.nodes : \A i \in g'.nodes :
                  LET u == Unit(g', i)
                      v == [m \in g.nodes |-> IF m = n THEN Floating(g, Unit(g, i), n) ELSE u[m]]
                  IN /\ Current(g, v, n) = <<0, 1>>
                     /\ \A k \in g'.nodes : Current(g, v, k) = Current(g', u, k)]_vars
\* the order does not matter
Confluent == g.nodes \subseteq Keep => g = ElimAll(g0, Keep)
Sound == /\ \A e \in DOMAIN g.c : e \subseteq g.nodes /\ g.c[e][1] > 0 /\ g.c[e][2] > 0
Ends == <>(g.nodes \subseteq Keep)
\* joining two nodes: as if they had the same potential
JoinKeeps == \A a, b \in g.nodes : a # b =>
    LET h == Join(g, a, b)
    IN /\ h.nodes = g.nodes \ {b}
       /\ \A i \in h.nodes : LET u == Unit(h, i)
                                 v == [m \in g.nodes |-> IF m = b THEN u[a] ELSE u[m]]
                             IN /\ \A k \in h.nodes \ {a} : Current(g, v, k) = Current(h, u, k)
                                /\ Plus(Current(g, v, a), Current(g, v, b)) = Current(h, u, a)
=============================================================================
