----------------------------- MODULE TechModel -----------------------------
(* A technology of NM metals made from a stack by the laws of TechData, in which one row of one table is then lost, doubled, *)
(* changed, or exchanged with another one: no such accident goes unnoticed.                                                 *)
EXTENDS TechData
CONSTANTS NM, Wide
Stacks == {[th |-> <<1600, 4200, 4900, 4900, 9000>>, gap |-> <<5000, 5400>>, film |-> FALSE]}
          \cup (IF Wide THEN {[th |-> <<1600, 4200, 9000, 12000, 20000>>, gap |-> <<4800, 6000, 8000>>, film |-> TRUE],
                               [th |-> <<1800, 3600, 3600, 8450, 12600>>, gap |-> <<4300, 2700, 4200, 3900, 5000>>, film |-> TRUE]} ELSE {})
M == 1..NM
Nm(i) == "m" \o ToString(i)
Vn(i) == "v" \o ToString(i)
Th(s, i) == s.th[((i - 1) % Len(s.th)) + 1]
Gp(s, i) == s.gap[((i - 1) % Len(s.gap)) + 1]
RECURSIVE Z(_, _)
Z(s, i) == IF i = 1 THEN 4000 ELSE Z(s, i - 1) + Th(s, i - 1) + Gp(s, i - 1)
E0 == [n |-> "", kind |-> "", z |-> 0, th |-> 0, k |-> 0, over |-> 0, nom |-> 0, ref |-> "", con |-> "", below |-> "", above |-> "", cth |-> 0, cw |-> 0]
Lay(n, p, g) == [n |-> n, pur |-> p, g |-> <<g, 20>>, pg |-> IF p = "METAL" THEN <<g, 16>> ELSE <<>>, lg |-> IF p = "METAL" THEN <<g, 5>> ELSE <<>>]
Cmp(n, k, p, g, d, o) == [n |-> n, kind |-> k, pur |-> p, g |-> <<g, d>>, o |-> o, ob |-> o]
FlattenRows(f(_)) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in M |-> i])
Base(s) ==
  LET stack == <<[E0 EXCEPT !.n = "subs", !.kind = "subs", !.th = 2800, !.ref = "fox"],
                 [E0 EXCEPT !.n = "nsd", !.kind = "diffusion", !.ref = "fox", !.con = "cn_con", !.below = "nsd", !.above = "m2_con", !.cth = Z(s, 2), !.cw = 1600],
                 [E0 EXCEPT !.n = "fox", !.kind = "fox", !.k = 3950]>>
               \o FlattenRows(LAMBDA i : <<[E0 EXCEPT !.n = Nm(i), !.kind = "metal", !.z = Z(s, i), !.th = Th(s, i), !.con = IF i = NM THEN "" ELSE Vn(i) \o "_con",
                                             !.below = IF i = NM THEN "" ELSE Nm(i), !.above = IF i = NM THEN "" ELSE Nm(i + 1) \o "_con",
                                             !.cth = IF i = NM THEN 0 ELSE Gp(s, i), !.cw = IF i = NM THEN 0 ELSE 1700]>>
                                         \o (IF s.film /\ i < NM THEN <<[E0 EXCEPT !.n = "f" \o ToString(i), !.kind = "conformal", !.k = 6500, !.over = 500, !.nom = 400, !.ref = Nm(i)]>> ELSE <<>>)
                                         \o <<[E0 EXCEPT !.n = "o" \o ToString(i), !.kind = "simple", !.k = 4000 + 100 * (i % 2), !.ref = "fox"]>>)
      canon == <<Lay("nsd", "N_IMPLANT", 90), Lay("diff", "DIFF", 91)>> \o FlattenRows(LAMBDA i : <<Lay(Nm(i), "METAL", i)>> \o
                 (IF i = NM THEN <<>> ELSE <<Lay(Vn(i), IF i = 1 THEN "CONTACT" ELSE "VIA", 50 + i)>>))
      comp == <<Cmp("cn_con", "REGULAR", "CONTACT", 51, 1, "v1")>> \o FlattenRows(LAMBDA i : <<Cmp(Nm(i) \o "_con", "REGULAR", "METAL", i, 20, Nm(i)), Cmp(Nm(i) \o "_pin", "PIN", "METAL", i, 16, Nm(i)),
                                                                          Cmp(Nm(i) \o "_label", "LABEL", "METAL", i, 5, Nm(i))>> \o
                 (IF i = NM THEN <<>> ELSE <<Cmp(Vn(i) \o "_con", "REGULAR", IF i = 1 THEN "CONTACT" ELSE "VIA", 50 + i, 20, Vn(i))>>))
      rl == [i \in M |-> [n |-> Nm(i), r |-> IF i = 1 THEN 7000 ELSE 400000 \div Th(s, i)]]
      rv == [i \in 1..(NM - 2) |-> [n |-> Vn(i + 1), r |-> 9000 - 1000 * i]]
      rc == <<[n |-> "cn_con", dev |-> "nsd", above |-> "m2", r |-> 17000], [n |-> "v1_con", dev |-> "m1", above |-> "m2_con", r |-> 15000]>>
      T0 == [canon |-> canon, comp |-> comp, stack |-> stack, rl |-> rl, rv |-> rv, rc |-> rc, nloc |-> 1, lo |-> 995, hi |-> 1005, halo |-> 80000]
      area(b, t) == (885400 * 1000) \div Gap(T0, b, t)
      per(i) == 20000 + 1000 * (NM - i)
      sub == [i \in M |-> [n |-> Nm(i), a |-> area(0, i), p |-> per(i)]]
      ovl == FlattenRows(LAMBDA t : <<[t |-> Nm(t), b |-> "nwell", c |-> area(0, t)], [t |-> Nm(t), b |-> "pwell", c |-> area(0, t)]>>
                                    \o [b \in 1..(t - 1) |-> [t |-> Nm(t), b |-> Nm(b), c |-> area(b, t)]])
      sw == [i \in M |-> [n |-> Nm(i), c |-> 8 * Th(s, i)]]
      sov == FlattenRows(LAMBDA i : <<[i |-> Nm(i), o |-> "nwell", c |-> per(i)], [i |-> Nm(i), o |-> "pwell", c |-> per(i)]>>
                                    \o [b \in 1..(i - 1) |-> [i |-> Nm(i), o |-> Nm(b), c |-> per(i) + 5000 * b]]
                                    \o [q \in 1..(NM - i) |-> [i |-> Nm(i), o |-> Nm(i + q), c |-> 40000 - 5000 * q - 100 * i]])
  IN [T0 EXCEPT !.rl = rl] @@ [sub |-> sub, ovl |-> ovl, sw |-> sw, sov |-> sov]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Tables == {"canon", "comp", "stack", "rl", "rv", "rc", "sub", "ovl", "sw", "sov"}
Values == [canon |-> {"g"}, comp |-> {"g", "o"}, stack |-> {"z", "th", "cth", "k"}, rl |-> {"r"}, rv |-> {"r"}, rc |-> {"r", "above"}, sub |-> {"a", "p"}, ovl |-> {"c", "b"},
           sw |-> {"n"}, sov |-> {"c", "o"}]
VARIABLES t, what
vars == <<t, what>>
Init == (\E s \in Stacks : t = Base(s)) /\ what = [how |-> "no"]
Put(tb, s) == t' = [t EXCEPT ![tb] = s]
Next == /\ what.how = "no"
        /\ \E tb \in Tables : \E i \in DOMAIN t[tb] :
             \/ /\ IF tb = "stack" THEN t.stack[i].kind # "conformal" ELSE TRUE
                /\ what' = [how |-> "lost", tb |-> tb, v |-> "", rows |-> <<t[tb][i]>>] /\ Put(tb, Without(t[tb], i))
             \/ /\ IF tb = "ovl" THEN t.ovl[i].b \notin Wells ELSE IF tb = "sov" THEN t.sov[i].o \notin Wells ELSE tb # "stack"
                /\ what' = [how |-> "doubled", tb |-> tb, v |-> "", rows |-> <<t[tb][i]>>] /\ Put(tb, Append(t[tb], t[tb][i]))
             \/ \E v \in Values[tb] : \E j \in DOMAIN t[tb] : t[tb][i][v] # t[tb][j][v] /\ i < j
                /\ what' = [how |-> "exchanged", tb |-> tb, v |-> v, rows |-> <<t[tb][i], t[tb][j]>>] /\ Put(tb, [t[tb] EXCEPT ![i][v] = t[tb][j][v], ![j][v] = t[tb][i][v]])
             \/ \E v \in Values[tb] : \E f \in {2, 3} : tb \in {"rl", "sub", "ovl", "sov"} /\ v \in {"r", "a", "p", "c"} /\ (tb = "rl" => i > 1)
                /\ what' = [how |-> "scaled", tb |-> tb, v |-> v, rows |-> <<t[tb][i]>>] /\ Put(tb, [t[tb] EXCEPT ![i][v] = IF f = 2 THEN (IF tb = "sov" THEN 5 ELSE 2) * t[tb][i][v] ELSE t[tb][i][v] \div (IF tb = "sov" THEN 5 ELSE 3)])
Spec == Init /\ [][Next]_vars
Sound == what.how = "no" => Faults(t) = {}
\* Accidents which leave a technology that could exist: layers nothing else refers to, values that are exchanged among kinds of rows with no bound between them
Row(k) == what.rows[k]
Excused == \/ what.tb = "canon" /\ what.how # "doubled" /\ \E k \in DOMAIN what.rows : Row(k).pur \in {"N_IMPLANT", "DIFF"}
           \/ what.how = "lost" /\ what.tb = "stack" /\ Row(1).n = "o" \o ToString(NM)
           \/ what.how = "exchanged" /\
              CASE what.tb = "comp" -> IF what.v = "o" THEN \E k \in {1, 2} : Row(k).kind \in {"PIN", "LABEL"} ELSE Row(1).o = Row(2).o /\ Row(1).kind = Row(2).kind
                [] what.tb \in {"rc", "sw"} -> TRUE
                [] what.tb = "stack" -> Row(1).kind = "subs"
                [] what.tb = "sov" -> IF what.v = "o" THEN Row(1).i = Row(2).i /\ (Row(1).o \in Wells <=> Row(2).o \in Wells) ELSE {Row(1).o, Row(2).o} \cap Wells = {}
                [] what.tb = "ovl" -> what.v = "b" /\ Row(1).t = Row(2).t /\ {Row(1).b, Row(2).b} \subseteq Wells
                [] OTHER -> FALSE
Noticed == what.how # "no" => Faults(t) # {} \/ Excused
=============================================================================
