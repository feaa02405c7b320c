---------------------------- MODULE ReportModel ----------------------------
(* Elements are found in any order; each is added to the results, then shown; a counter per key gives its number.     *)
EXTENDS Report, TLC
CONSTANTS Keys, Vals, MaxEls
VARIABLES res, rep, cnt, due
vars == <<res, rep, cnt, due>>
Init == res = <<>> /\ rep = <<>> /\ cnt = [k \in Keys |-> 0] /\ due = <<>>
Find(k, v) == /\ due = <<>> /\ Len(res) < MaxEls
              /\ res' = Append(res, [key |-> k, v |-> v]) /\ due' = <<[key |-> k, v |-> v]>>
              /\ UNCHANGED <<rep, cnt>>
Show == /\ due # <<>>
        /\ LET e == due[1]
           IN /\ cnt' = [cnt EXCEPT ![e.key] = @ + 1]
              /\ rep' = Append(rep, [key |-> e.key, no |-> cnt[e.key] + 1, v |-> e.v])
        /\ due' = <<>> /\ UNCHANGED res
Next == Show \/ \E k \in Keys, v \in Vals : Find(k, v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Show)
Shown == due = <<>> => \A k \in Keys : SameElements(res, rep, k)
Numbers == \A k \in Keys : Numbered(rep, k)
\* nothing is ever shown that was not found
NothingElse == \A k \in Keys : Len(Under(rep, k)) <= Len(Under(res, k))
\* a number names one item for good
Stable == [][\A k \in Keys : Under(rep, k) = SubSeq(Under(rep', k), 1, Len(Under(rep, k)))]_vars
Live == [](due # <<>> => <>(due = <<>>))
=============================================================================
