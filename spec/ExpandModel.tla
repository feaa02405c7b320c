---------------------------- MODULE ExpandModel ----------------------------
(* The capacitors of the expanded netlist are those of the structure the matrix belongs to: a solver sees capacitances *)
(* `between` conductors and `free` ones to infinity, taken for the substrate.                                          *)
EXTENDS Expand, Rational
CONSTANTS N, MaxC
VARIABLES between, free, stage, m, caps
vars == <<between, free, stage, m, caps>>
Pairs2 == {p \in SUBSET (1..N) : Cardinality(p) = 2}
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Maxwell == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN free[i] + SumSet(between, {p \in Pairs2 : i \in p}) ELSE -between[{i, j}]]]
Init == /\ between \in [Pairs2 -> 0..MaxC] /\ free \in [1..N -> 0..MaxC]
        /\ stage = "solve" /\ m = <<>> /\ caps = {}
Solve == stage = "solve" /\ m' = Maxwell /\ stage' = "expand" /\ UNCHANGED <<between, free, caps>>
Expanding == stage = "expand" /\ caps' = Capacitors(m, [i \in 1..N |-> i]) /\ stage' = "done" /\ UNCHANGED <<between, free, m>>
Next == Solve \/ Expanding
Spec == Init /\ [][Next]_vars
Total(p) == LET cs == {c \in caps : {c.a, c.b} = p} IN SumSet([c \in cs |-> c.v], cs)
SameStructure == stage = "done" => \A p \in Pairs2 :
   Total(p) = between[p] + (IF 1 \in p THEN free[CHOOSE i \in p : i # 1] ELSE 0)
NoLoops == \A c \in caps : c.a # c.b
=============================================================================
