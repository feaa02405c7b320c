---------------------------- MODULE StackModel ----------------------------
(* The process, step by step: a metal is drawn on the field oxide, dielectrics are put around it one after the other,  *)
(* and what is left is filled up to the next metal. Column 0 lies in the metal, column i where the i-th dielectric     *)
(* ends, and the last one away from all metal. The result is the one that the model of the layout has.                 *)
EXTENDS ModelStack, TLC
CONSTANTS MaxChain
Z == 20
Th == 30
H == 150
VARIABLES chain, conf, h, top, seg
vars == <<chain, conf, h, top, seg>>
Cols == 0..(MaxChain + 1)
Init == chain = <<>> /\ conf = FALSE /\ h = 0 /\ top = [i \in Cols |-> IF i = 0 THEN Th ELSE 0] /\ seg = [i \in Cols |-> <<>>]
Name(k) == <<"a", "b", "c", "d">>[k]
Max(a, b) == IF a > b THEN a ELSE b
\* dielectric k reaches height hk around the metal and has thickness f elsewhere
Put(k, hk, f) == LET new == [i \in Cols |-> IF i <= k THEN Max(top[i], hk) ELSE top[i] + f] IN
   /\ top' = new /\ h' = hk
   /\ seg' = [i \in Cols |-> IF new[i] > top[i] THEN Append(seg[i], <<Name(k), top[i], new[i]>>) ELSE seg[i]]
Ref == IF chain = <<>> THEN "m" ELSE Name(Len(chain))
Conformal(over, f) == LET k == Len(chain) + 1 IN
   /\ chain' = Append(chain, [kind |-> "conformal", name |-> Name(k), ref |-> Ref, w |-> 10, over |-> over, nometal |-> f])
   /\ conf' = TRUE
   /\ Put(k, h + over + (IF conf THEN 0 ELSE Th), f)
Sidewall(hs) == LET k == Len(chain) + 1 IN
   /\ chain' = Append(chain, [kind |-> "sidewall", name |-> Name(k), ref |-> Ref, w |-> 10, h |-> hs])
   /\ UNCHANGED conf
   /\ Put(k, h + (IF hs = 0 THEN Th ELSE hs), 0)
Next == Len(chain) < MaxChain /\ \/ \E over \in {10, 20}, f \in {0, 10, 20} : Conformal(over, f)
                                 \/ \E hs \in {0, 10, 30} : Sidewall(hs)
Spec == Init /\ [][Next]_vars
Metal(n, z, th) == [kind |-> "metal", name |-> n, z |-> z, th |-> th, con |-> "", cth |-> 0]
Stack == <<[kind |-> "subs", name |-> "s", h |-> 10, th |-> 20], [kind |-> "fox", name |-> "f"], Metal("m", Z, Th)>> \o chain
         \o <<[kind |-> "simple", name |-> "fill"], Metal("m2", Z + H, Th), [kind |-> "simple", name |-> "air"]>>
\* column i: dielectric k is 1 wide, so the i-th lies up to distance i
D(i) == [n \in {"m", "m2"} |-> IF n = "m2" THEN Far ELSE IF i = 0 THEN -50 ELSE IF i > Len(chain) THEN 100 * Len(chain) + 50 ELSE 100 * i - 50]
Got(i) == Crossings(Stack, <<"N">>, D(i), IF i = 0 THEN {<<"N", "m">>} ELSE {}, TRUE, {}, 100)
\* what the steps have left in column i, in whole units
Want(i) == {<<s[1], (Z + s[2]) \div 10, (Z + s[3]) \div 10>> : s \in {seg[i][j] : j \in DOMAIN seg[i]}}
           \cup (IF i = 0 THEN {<<"N", Z \div 10, (Z + Th) \div 10>>} ELSE {})
           \cup {<<"fill", (Z + top[i]) \div 10, (Z + H) \div 10>>}
           \cup {<<"f", 0, Z \div 10>>, <<"VSUBS", -3, -1>>, <<"air", (Z + H) \div 10, (Z + H + 500) \div 10>>}
Intervals(i) == {<<c[3], c[1]>> : c \in {c \in Got(i) : c[3] # ""}}
Used(i) == i <= Len(chain) \/ i = MaxChain + 1
Agrees == \A i \in {i \in Cols : Used(i)} : Intervals(i) = {<<w[1], w[2]>> : w \in Want(i)}
\* nothing between the field oxide and the air is left out
Filled == \A i \in {i \in Cols : Used(i)} : \A z \in 0..((Z + H + 499) \div 10) : 
   Owner(OwnerOrder(Stack, <<"N">>), Real(Above(Stack, D(i), IF i = 0 THEN {<<"N", "m">>} ELSE {}, TRUE, {}, 100)), 0, z) # ""
\* over the metal, a dielectric around another one has the thickness stated
OverMetal == conf => \A k \in DOMAIN chain : (k > 1 /\ chain[k].kind = "conformal" /\ chain[k - 1].kind = "conformal") =>
   \E s \in {seg[0][j] : j \in DOMAIN seg[0]} : s[1] = Name(k) /\ s[3] - s[2] = chain[k].over
=============================================================================
