------------------------------ MODULE TechData ------------------------------
(* The description of a process: drawn layers, layers computed by LVS, the stack, resistances and capacitances.        *)
(* It describes one piece of silicon, so that its tables have to agree with each other.                                *)
(* Lengths in 0.1 nm, permittivities in 1/1000, capacitances in aF/1000 (per um^2 or um), resistances in mOhm.         *)
(*   canon : drawn layers [n, pur, g (pair), pg, lg (pairs of pins and labels, <<>> if none)]                          *)
(*   comp  : computed layers [n, kind, pur, g, o (name of the drawn layer), ob (the same without suffix)]              *)
(*   stack : [n, kind, z, th, k, over, nom, ref, con (name, "" if none), below, above, cth, cw]                        *)
(*   rl, rv, rc : resistances [n, r] of layers and vias, [n, dev, above, r] of contacts                                *)
(*   sub [n, a, p], ovl [t, b, c], sw [n, c], sov [i, o, c] : capacitances                                             *)
(*   nloc : number of metals at the bottom that are not aluminium;  lo, hi : percent*10 by which plates may deviate    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rg(s) == {s[i] : i \in DOMAIN s}
Names(s) == {s[i].n : i \in DOMAIN s}
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
IsDrawn(T, n) == n \in Names(T.canon)
IsComp(T, n) == n \in Names(T.comp)
CompOf(T, n) == CHOOSE c \in Rg(T.comp) : c.n = n
CanonOf(T, n) == IF IsDrawn(T, n) THEN n ELSE IF IsComp(T, n) THEN CompOf(T, n).o ELSE "?"
Metals(T) == SelectSeq(T.stack, LAMBDA e : e.kind = "metal")
IsRouting(T, n) == IF IsDrawn(T, n) THEN \E c \in Rg(T.canon) : c.n = n /\ c.pur = "METAL"
                   ELSE IsComp(T, n) /\ CompOf(T, n).kind = "REGULAR" /\ CompOf(T, n).pur = "METAL"
Routing(T) == SelectSeq(Metals(T), LAMBDA e : IsRouting(T, e.n))
RName(T) == [i \in DOMAIN Routing(T) |-> CanonOf(T, Routing(T)[i].n)]
Wells == {"nwell", "pwell", "NWell", "PWell"}
Diffs(T) == {c.n : c \in {d \in Rg(T.canon) : d.pur = "DIFF"}}
\* ------------------------------------------------------------------------------------------------------ layers
Distinct(s, F(_)) == \A i, j \in DOMAIN s : F(s[i]) = F(s[j]) => i = j
LayerFaults(T) == UNION {
  IF Distinct(T.canon, LAMBDA c : c.n) /\ Distinct(T.comp, LAMBDA c : c.n) THEN {} ELSE {"a layer name twice"},
  IF Distinct(T.canon, LAMBDA c : c.g) /\ Distinct(SelectSeq(T.comp, LAMBDA c : c.pur # "PWELL"), LAMBDA c : c.g) THEN {} ELSE {"a GDS pair twice"},
  {"computed layer without its drawn layer: " \o c.n : c \in {d \in Rg(T.comp) : /\ d.kind \in {"REGULAR", "DEVICE_CAPACITOR"}
       /\ d.pur \in {"METAL", "VIA", "CONTACT", "NWELL"}
       /\ ~\E q \in Rg(T.canon) : q.n = d.o /\ q.pur = d.pur /\ q.g[1] = d.g[1]}},
  {"no computed layer: " \o q.n : q \in {q \in Rg(T.canon) : q.pur \in {"METAL", "VIA"} /\ ~\E c \in Rg(T.comp) : c.kind = "REGULAR" /\ c.o = q.n}},
  {"pins: " \o q.n : q \in {q \in Rg(T.canon) : q.pur = "METAL" /\ Count(T.comp, LAMBDA c : c.kind = "PIN" /\ c.ob = q.n /\ c.g = q.pg) # 1}},
  {"labels: " \o q.n : q \in {q \in Rg(T.canon) : q.pur = "METAL" /\ Count(T.comp, LAMBDA c : c.kind = "LABEL" /\ c.ob = q.n /\ c.g = q.lg) # 1}} }
\* ------------------------------------------------------------------------------------------------------- stack
Near(a, b) == a - b <= 2 /\ b - a <= 2
RAbove(T, n) == {e \in Rg(Routing(T)) : CanonOf(T, e.n) = CanonOf(T, n)}
StackFaults(T) == LET R == Routing(T)  IN UNION {
  {"not a metal of the stack: " \o q.n : q \in {q \in Rg(T.canon) : q.pur = "METAL" /\ Cardinality({i \in DOMAIN R : RName(T)[i] = q.n}) # 1}},
  {"metals overlap: " \o R[i].n : i \in {i \in DOMAIN R : R[i].th <= 0 \/ R[i].z <= 0 \/ (i > 1 /\ R[i].z <= R[i - 1].z + R[i - 1].th)}},
  {"no contact: " \o R[i].n : i \in {i \in 1..(Len(R) - 1) : R[i].con = ""}},
  {"contact of " \o R[i].n : i \in {i \in DOMAIN R : R[i].con # "" /\ ~(/\ i < Len(R) /\ CanonOf(T, R[i].below) = RName(T)[i] /\ CanonOf(T, R[i].above) = RName(T)[i + 1]
       /\ Near(R[i].z + R[i].th + R[i].cth, R[i + 1].z) /\ R[i].cw > 0)}},
  {"contact of " \o e.n : e \in {e \in Rg(Metals(T)) \ Rg(R) : e.con # "" /\ ~(/\ (IsDrawn(T, e.below) \/ IsComp(T, e.below)) /\ e.cw > 0 /\ RAbove(T, e.above) # {}
       /\ \A a \in RAbove(T, e.above) : e.z + e.th + e.cth >= a.z - 2 /\ e.z + e.th + e.cth < a.z + a.th)}},
  {"contact of " \o e.n : e \in {e \in Rg(T.stack) : e.kind = "diffusion" /\ ~(/\ (IsDrawn(T, e.below) \/ IsComp(T, e.below)) /\ e.cw > 0
       /\ CanonOf(T, e.above) = RName(T)[2] /\ Near(e.cth, R[2].z))}},
  {"contact " \o c.n : c \in {c \in Rg(T.comp) : c.kind = "REGULAR" /\ c.pur \in {"CONTACT", "VIA"} /\ Count(T.stack, LAMBDA e : e.con = c.n) # 1}},
  {"permittivity of " \o e.n : e \in {e \in Rg(T.stack) : e.kind \in {"simple", "conformal", "fox"} /\ (e.k < 1000 \/ e.k > 10000)}},
  {"reference of " \o e.n : e \in {e \in Rg(T.stack) : e.ref # "" /\ e.ref \notin Names(T.stack)}},
  IF Count(T.stack, LAMBDA e : e.kind = "subs") = 1 /\ Count(T.stack, LAMBDA e : e.kind = "fox") = 1 THEN {} ELSE {"substrate and field oxide"} }
\* -------------------------------------------------------------------------------------------------- resistance
One(s, P(_)) == Count(s, P) = 1
RL(T, n) == (CHOOSE q \in Rg(T.rl) : q.n = n).r
RV(T, n) == (CHOOSE q \in Rg(T.rv) : q.n = n).r
ViaOf(T, i) == CanonOf(T, Routing(T)[i].con)       \* drawn via above routing metal i
Drawn(T, pur) == {c.n : c \in {d \in Rg(T.canon) : d.pur = pur}}
ContactNames(T) == {c.n : c \in {d \in Rg(T.comp) : d.kind = "REGULAR" /\ d.pur = "CONTACT"}}
ResistFaults(T) == LET R == Routing(T)  N == RName(T)  whole == /\ \A n \in Rg(N) : One(T.rl, LAMBDA q : q.n = n)
                                                                /\ \A n \in Drawn(T, "VIA") : One(T.rv, LAMBDA q : q.n = n)
                                                                /\ \A i \in 2..(Len(R) - 1) : R[i].con # "" /\ ViaOf(T, i) \in Drawn(T, "VIA") IN UNION {
  {"sheet resistances of " \o n : n \in {n \in Rg(N) : ~One(T.rl, LAMBDA q : q.n = n)}},
  {"via resistances of " \o n : n \in {n \in Drawn(T, "VIA") : ~One(T.rv, LAMBDA q : q.n = n)}},
  {"contact resistances of " \o n : n \in {n \in ContactNames(T) : ~One(T.rc, LAMBDA q : q.n = n)}},
  {"contact resistance " \o q.n : q \in {q \in Rg(T.rc) : ~(/\ q.n \in ContactNames(T) /\ q.r > 0 /\ CanonOf(T, q.above) = N[2]
       /\ (IsDrawn(T, q.dev) \/ IsComp(T, q.dev)) /\ (\E e \in Rg(T.stack) : e.con = q.n /\ CanonOf(T, e.below) = CanonOf(T, q.dev)))}},
  {"not positive: " \o q.n : q \in {q \in Rg(T.rl) \cup Rg(T.rv) : q.r <= 0}},
  IF ~whole THEN {} ELSE UNION {
    {"sheet resistance of " \o N[i] : i \in {i \in DOMAIN R : i > 1 /\ RL(T, N[i]) > RL(T, N[i - 1])}},
    {"resistivity of " \o N[i] : i \in {i \in DOMAIN R : i > T.nloc /\ ~(R[i].th > 0 /\ RL(T, N[i]) >= 280000 \div R[i].th /\ RL(T, N[i]) <= 500000 \div R[i].th)}},
    {"via resistance above " \o N[i] : i \in {i \in 3..(Len(R) - 1) : RV(T, ViaOf(T, i)) > RV(T, ViaOf(T, i - 1))}},
    {"contact less than via: " \o q.n : q \in {q \in Rg(T.rc) : Len(R) > 2 /\ q.r < RV(T, ViaOf(T, 2))}} } }
\* ------------------------------------------------------------------------------------------------- capacitance
\* the oxide above routing metal i is the first simple dielectric above it; films and spacers on it are those that follow it by reference
\* (a permittivity below that of the void, as that of sky130A's iox, is taken for a film of no thickness)
PosOf(T, n) == CHOOSE i \in DOMAIN T.stack : T.stack[i].n = n
NextR(T, i) == IF i < Len(Routing(T)) THEN PosOf(T, Routing(T)[i + 1].n) ELSE Len(T.stack) + 1
Between(T, i) == SubSeq(T.stack, PosOf(T, Routing(T)[i].n) + 1, NextR(T, i) - 1)
Films(T, i) == FoldLeft(LAMBDA acc, e : IF e.kind \in {"conformal", "sidewall"} /\ e.ref = acc.ref THEN [ref |-> e.n, s |-> Append(acc.s, e)] ELSE acc,
                        [ref |-> Routing(T)[i].n, s |-> <<>>], Between(T, i)).s
Oxide(T, i) == LET s == SelectSeq(Between(T, i), LAMBDA e : e.kind = "simple") IN IF s = <<>> THEN 1000 ELSE s[1].k
FoxK(T) == LET f == SelectSeq(T.stack, LAMBDA e : e.kind = "fox") IN IF f = <<>> THEN 0 ELSE f[1].k
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Ser(d, k) == IF k <= 0 THEN 0 ELSE (d * 10000) \div k
\* thickness over permittivity from the top of metal b (0: the substrate) to the bottom of metal t
Slab(T, i, first) == LET R == Routing(T)  f == Films(T, i)  d(e) == IF e.k < 1000 THEN 0 ELSE IF first THEN e.over ELSE e.nom
                         rest == R[i + 1].z - R[i].z - (IF first THEN R[i].th ELSE 0) - SumOf([j \in DOMAIN f |-> d(f[j])])
                     IN SumOf([j \in DOMAIN f |-> Ser(d(f[j]), f[j].k)]) + Ser(rest, Oxide(T, i))
Gap(T, b, t) == SumOf([i \in 1..(t - b) |-> IF b + i - 1 = 0 THEN Ser(Routing(T)[1].z, FoxK(T)) ELSE Slab(T, b + i - 1, i = 1)])
\* parallel plates: capacitance per area = 8.854 aF/um / (thickness/permittivity)
Plates(T, c, g) == g > 0 /\ c >= (885400 * T.lo) \div g /\ c <= (885400 * T.hi) \div g + 1
SubOf(T, n) == CHOOSE q \in Rg(T.sub) : q.n = n
OvlOf(T, t, b) == (CHOOSE q \in Rg(T.ovl) : q.t = t /\ q.b = b).c
SovOf(T, i, o) == (CHOOSE q \in Rg(T.sov) : q.i = i /\ q.o = o).c
\* b is that of the farther metal: less, up to the noise of the measurements, but not by an order of magnitude
AtLeast(a, b) == a * 100 >= b * 97
Falls(a, b) == AtLeast(a, b) /\ b * 3 >= a
CapFaults(T) == LET R == Routing(T)  N == RName(T)  D == DOMAIN R
    whole == /\ \A n \in Rg(N) : One(T.sub, LAMBDA q : q.n = n) /\ One(T.sw, LAMBDA q : q.n = n)
             /\ \A i, j \in D : i > j => One(T.ovl, LAMBDA q : q.t = N[i] /\ q.b = N[j])
             /\ \A i, j \in D : i # j => One(T.sov, LAMBDA q : q.i = N[i] /\ q.o = N[j]) IN UNION {
  {"substrate capacitances of " \o n : n \in {n \in Rg(N) : ~One(T.sub, LAMBDA q : q.n = n)}},
  {"sidewall capacitances of " \o n : n \in {n \in Rg(N) : ~One(T.sw, LAMBDA q : q.n = n)}},
  {"overlap capacitances of " \o N[p[1]] \o " over " \o N[p[2]] : p \in {p \in D \X D : p[1] > p[2] /\ ~One(T.ovl, LAMBDA q : q.t = N[p[1]] /\ q.b = N[p[2]])}},
  {"fringe capacitances of " \o N[p[1]] \o " to " \o N[p[2]] : p \in {p \in D \X D : p[1] # p[2] /\ ~One(T.sov, LAMBDA q : q.i = N[p[1]] /\ q.o = N[p[2]])}},
  IF T.halo > 0 THEN {} ELSE {"halo"},
  IF \A q \in Rg(T.sub) : q.a > 0 /\ q.p > 0 THEN {} ELSE {"substrate capacitance not positive"},
  IF \A q \in Rg(T.ovl) \cup Rg(T.sov) \cup Rg(T.sw) : q.c > 0 THEN {} ELSE {"capacitance not positive"},
  IF ~whole THEN {} ELSE UNION {
    {"plates: " \o N[i] : i \in {i \in D : ~Plates(T, SubOf(T, N[i]).a, Gap(T, 0, i))}},
    {"plates: " \o N[p[1]] \o " over " \o N[p[2]] : p \in {p \in D \X D : p[1] > p[2] /\ ~Plates(T, OvlOf(T, N[p[1]], N[p[2]]), Gap(T, p[2], p[1]))}},
    {"well: " \o n : n \in {n \in Rg(N) : ~(/\ Cardinality({q.b : q \in {q \in Rg(T.ovl) : q.t = n /\ q.b \in Wells}}) = 2
         /\ \A q \in Rg(T.ovl) : q.t = n /\ q.b \in Wells => q.c = SubOf(T, n).a)}},
    {"fringe to well: " \o n : n \in {n \in Rg(N) : ~(/\ Cardinality({q.o : q \in {q \in Rg(T.sov) : q.i = n /\ q.o \in Wells}}) = 2
         /\ \A q \in Rg(T.sov) : q.i = n /\ q.o \in Wells => q.c = SubOf(T, n).p)}},
    \* the closer, the more
    {"order above substrate: " \o N[i] : i \in {i \in D : i > 1 /\ ~(SubOf(T, N[i]).a < SubOf(T, N[i - 1]).a)}},
    {"order: " \o N[i] : i \in {i \in D : \E j, k \in D : j < k /\ k < i /\ ~(/\ OvlOf(T, N[i], N[j]) < OvlOf(T, N[i], N[k])
                                                                             /\ OvlOf(T, N[i], N[j]) < OvlOf(T, N[k], N[j])
                                                                             /\ SubOf(T, N[i]).a < OvlOf(T, N[i], N[j]))}},
    {"diffusion: " \o q.t : q \in {q \in Rg(T.ovl) : q.t \in Rg(N) /\ q.b \in Diffs(T) /\ ~(q.c > SubOf(T, q.t).a /\ (q.t # N[1] => q.c < OvlOf(T, q.t, N[1])))}},
    {"order of fringes of " \o N[i] : i \in {i \in D : \E j, k \in D : \/ (j = k - 1 /\ k < i /\ ~Falls(SovOf(T, N[i], N[k]), SovOf(T, N[i], N[j])))
                                                                      \/ (i < j /\ k = j + 1 /\ ~Falls(SovOf(T, N[i], N[j]), SovOf(T, N[i], N[k])))
                                                                      \/ (j \in {i - 1, i + 1} /\ (SovOf(T, N[i], N[j]) < 15000 \/ SovOf(T, N[i], N[j]) > 90000))
                                                                      \/ (k < i /\ ~AtLeast(SovOf(T, N[i], N[k]), SubOf(T, N[i]).p))}},
    \* beside each other, two wires couple by more than the plates that their sides form
    {"sidewall of " \o q.n : q \in {q \in Rg(T.sw) : \E i \in D : N[i] = q.n /\ ~(q.c * 100 >= 345 * R[i].th /\ q.c * 100 <= 3450 * R[i].th)}} } }
Faults(T) == IF Len(Routing(T)) < 3 THEN {"no metals"} ELSE UNION {LayerFaults(T), StackFaults(T), ResistFaults(T), CapFaults(T)}
\* ------------------------------------------------------------------------------------------------------ lookups
\* A question about a technology: [f (kind), a (names and numbers asked for), r (answer, <<>> if none)]. Any of several rows that fit will do.
Pick(s, P(_), F(_)) == {F(e) : e \in {q \in Rg(s) : P(q)}}
OrNone(S) == IF S = {} THEN {<<>>} ELSE S
Asked(T, q) == LET a == q.a IN CASE
     q.f = "gds_pair" -> OrNone(IF IsComp(T, a[1]) THEN {CompOf(T, a[1]).g} ELSE Pick(T.canon, LAMBDA e : e.n = a[1], LAMBDA e : e.g))
  [] q.f = "canonical" -> OrNone(Pick(T.comp, LAMBDA e : e.g = a, LAMBDA e : <<e.o>>))
  [] q.f = "computed" -> OrNone(Pick(T.comp, LAMBDA e : e.n = a[1], LAMBDA e : <<e.n, e.kind, e.o>>))
  [] q.f = "computed_at" -> OrNone(Pick(T.comp, LAMBDA e : e.g = a, LAMBDA e : <<e.n, e.kind, e.o>>))
  [] q.f = "drawn" -> OrNone(Pick(T.canon, LAMBDA e : e.n = a[1], LAMBDA e : <<e.n, e.pur>>))
  [] q.f = "drawn_at" -> OrNone(Pick(T.canon, LAMBDA e : e.g = a, LAMBDA e : <<e.n, e.pur>>))
  [] q.f = "kind" -> LET s == SelectSeq(T.stack, LAMBDA e : e.kind = a[1]) IN {[i \in DOMAIN s |-> s[i].n]}
  [] q.f = "dielectrics" -> LET s == SelectSeq(T.stack, LAMBDA e : e.kind \in {"simple", "conformal", "sidewall"} /\ (e.n \in Rg(Tail(a))) = (a[1] = "none"))
                            IN {[i \in DOMAIN s |-> s[i].n]}
  [] q.f = "permittivity" -> OrNone(Pick(T.stack, LAMBDA e : e.n = a[1] /\ e.kind \in {"simple", "conformal", "sidewall"}, LAMBDA e : <<e.k>>))
  [] q.f = "contact_of_device" -> OrNone(Pick(T.stack, LAMBDA e : e.n = a[1] /\ e.kind \in {"nwell", "diffusion"} /\ e.con # "", LAMBDA e : <<e.con>>))
  [] q.f = "contact" -> OrNone(Pick(T.stack, LAMBDA e : e.con = a[1], LAMBDA e : <<e.con, e.below, e.above>>))
  [] q.f = "via_ends" -> OrNone(Pick(T.stack, LAMBDA e : e.con = a[1] /\ e.kind = "metal", LAMBDA e : <<e.below, e.above>>))
  [] q.f = "sheet" -> OrNone(Pick(T.rl, LAMBDA e : e.n = a[1], LAMBDA e : <<e.r>>))
  [] q.f = "via" -> OrNone(Pick(T.rv, LAMBDA e : e.n = a[1], LAMBDA e : <<e.r>>))
  [] q.f = "device_contact" -> OrNone(Pick(T.rc, LAMBDA e : e.dev = a[1], LAMBDA e : <<e.r, e.n>>))
  [] q.f = "substrate" -> OrNone(Pick(T.sub, LAMBDA e : e.n = a[1], LAMBDA e : <<e.a, e.p>>))
  [] q.f = "sidewall" -> OrNone(Pick(T.sw, LAMBDA e : e.n = a[1], LAMBDA e : <<e.c>>))
  [] q.f = "overlap" -> OrNone(Pick(T.ovl, LAMBDA e : e.t = a[1] /\ e.b = a[2], LAMBDA e : <<e.c>>)
                               \cup Pick(T.sub, LAMBDA e : e.n = a[1] /\ a[2] = "VSUBS", LAMBDA e : <<e.a>>))
  [] q.f = "fringe" -> OrNone(Pick(T.sov, LAMBDA e : e.i = a[1] /\ e.o = a[2], LAMBDA e : <<e.c>>)
                              \cup Pick(T.sub, LAMBDA e : e.n = a[1] /\ a[2] = "VSUBS", LAMBDA e : <<e.p>>))
  \* mOhm per contact of width a[2] (0.01 um) as Ohm um^2 * 10^4;  mOhm as Ohm
  [] q.f = "per_area" -> {<<(a[1] \div 1000) * a[2] * a[2]>>}
  [] q.f = "ohm" -> {<<a[1] \div 1000>>}
LookupFaults(T, qs) == {qs[i].f : i \in {i \in DOMAIN qs : \A x \in Asked(T, qs[i]) : x # qs[i].r}}
=============================================================================
