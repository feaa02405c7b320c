------------------------------ MODULE Summary ------------------------------
(* Summing up: capacitances between two nets add up, resistors between two nets are in parallel.                  *)
(* An entry is [t |-> "C" or "R", a, b, v]; resistances divide LCM (or are 0), so that conductances are integers  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT LCM
Pair(e) == {e.a, e.b}
Of(es, t, p) == SelectSeq(es, LAMBDA e : e.t = t /\ Pair(e) = p)
Pairs(es, t) == {Pair(e) : e \in {x \in Range(es) : x.t = t}}
CapOf(es, p) == FoldLeft(LAMBDA s, e : s + e.v, 0, Of(es, "C", p))
Shorted(es, p) == \E e \in Range(Of(es, "R", p)) : e.v = 0
Cond(es, p) == FoldLeft(LAMBDA s, e : s + LCM \div e.v, 0, Of(es, "R", p))     \* LCM / resistance, if not shorted
\* the resistance as a fraction <<numerator, denominator>>
ResOf(es, p) == IF Shorted(es, p) THEN <<0, 1>> ELSE <<LCM, Cond(es, p)>>
=============================================================================
