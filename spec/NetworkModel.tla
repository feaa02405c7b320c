---------------------------- MODULE NetworkModel ----------------------------
(* Merging parallel elements, and elements in series at hidden nets, in any order and as far as one likes, never      *)
(* changes what the visible nets see.                                                                                *)
EXTENDS Network, TLC
CONSTANTS N, Hidden, Vals, MaxEls
VARIABLES es, es0
vars == <<es, es0>>
Els == {e \in [a : 1..N, b : 1..N, v : {<<x, 1>> : x \in Vals}] : e.a < e.b}
Visible == (1..N) \ Hidden
Init == es = <<>> /\ es0 = <<>>
Build == es = es0 /\ Len(es) < MaxEls /\ \E e \in Els : es' = Append(es, e) /\ es0' = es'
Without(s, I) == LET RECURSIVE F(_)
                     F(k) == IF k > Len(s) THEN <<>> ELSE (IF k \in I THEN <<>> ELSE <<s[k]>>) \o F(k + 1) IN F(1)
Parallel == \E i, j \in DOMAIN es : /\ i < j /\ {es[i].a, es[i].b} = {es[j].a, es[j].b}
              /\ es' = Append(Without(es, {i, j}), [es[i] EXCEPT !.v = QAdd(es[i].v, es[j].v)]) /\ es0' = es0
Other(e, n) == IF e.a = n THEN e.b ELSE e.a
Serial == \E n \in Hidden : \E i, j \in DOMAIN es :
              /\ i < j /\ n \in {es[i].a, es[i].b} /\ n \in {es[j].a, es[j].b} /\ es[i].a # es[i].b /\ es[j].a # es[j].b
              /\ \A k \in DOMAIN es \ {i, j} : n \notin {es[k].a, es[k].b}
              /\ es' = Append(Without(es, {i, j}), [a |-> Other(es[i], n), b |-> Other(es[j], n),
                          v |-> QMul(QMul(es[i].v, es[j].v), QInv(QAdd(es[i].v, es[j].v)))]) /\ es0' = es0
Next == Build \/ Parallel \/ Serial
Spec == Init /\ [][Next]_vars
Equivalent == Port(es, Visible) = Port(es0, Visible)
=============================================================================
