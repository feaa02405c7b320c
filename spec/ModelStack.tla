---------------------------- MODULE ModelStack ----------------------------
(* What a process stack makes of a layout, above one point of the plane: the layers of conductors and dielectrics      *)
(* there, with their heights. The shapes of the layout matter only by their distance from the point.                   *)
(* Heights and widths in tenths of a database unit; they are taken down to whole units.                                *)
(*  stack: sequence of [kind, name, ...]                                                                               *)
(*    metal: z, th, con (name of the contact above, or ""), cth                                                        *)
(*    sidewall: ref, w, h     conformal: ref, w, over, nometal     simple: -                                           *)
(*    diffusion: con, cth     fox: -     subs: h, th                                                                   *)
(*  D[n]: distance (hundredths of a unit) of the point from shapes of layer n (negative: inside), Far if none          *)
(*  on: set of <<net, n>>: the point is in a shape of the net on layer n                                                *)
(*  box: the point is in the box of the model; excluded: names of dielectrics left out                                 *)
EXTENDS Solid, Sequences
Far == 1000000000
Near(D, n, d) == D[n] < 100 * d
Metals(st) == SelectSeq(st, LAMBDA e : e.kind = "metal")
Diffs(st) == SelectSeq(st, LAMBDA e : e.kind = "diffusion")
Dielectrics(st) == {st[i] : i \in {i \in DOMAIN st : st[i].kind \in {"sidewall", "conformal", "simple"}}}
Layer(name, z0, z1) == [name |-> name, cells |-> {0}, z0 |-> z0 \div 10, z1 |-> z1 \div 10]
SeqSet(s) == {s[i] : i \in DOMAIN s}
\* the dielectric that covers `ref` on its sides, <<>> if none
Covering_(st, ref, excluded) == SelectSeq(st, LAMBDA e : e.kind \in {"sidewall", "conformal"} /\ e.ref = ref /\ e.name \notin excluded)
\* the chain of dielectrics around a metal. a = [d: width so far, h: height so far, low: height of those lying where there is no metal,
\*  flat: some of them does, conf: some is conformal, layers]
RECURSIVE Chain(_, _, _, _, _, _, _)
Chain(st, m, ref, D, box, excluded, a) ==
  LET c == Covering_(st, ref, excluded) IN
  IF c = <<>> THEN a ELSE
  LET e == c[1] d == a.d + e.w \div 10
      h == a.h + (IF e.kind = "sidewall" THEN (IF e.h = 0 THEN m.th ELSE e.h) ELSE e.over + (IF a.conf THEN 0 ELSE m.th))
      near == Near(D, m.name, d)
      flat == e.kind = "conformal" /\ e.nometal > 0
      new == (IF near THEN {Layer(e.name, m.z, m.z + h)} ELSE {})
             \cup (IF flat /\ box /\ ~near THEN {Layer(e.name, m.z + a.low, m.z + a.low + e.nometal)} ELSE {})
  IN Chain(st, m, e.name, D, box, excluded, [d |-> d, h |-> h, low |-> IF flat THEN a.low + e.nometal ELSE a.low, flat |-> a.flat \/ flat,
           conf |-> a.conf \/ e.kind = "conformal", layers |-> a.layers \cup new])
Indices(st, m) == CHOOSE i \in DOMAIN st : st[i].kind = "metal" /\ st[i].name = m.name
\* the simple dielectric between a metal and the next one, and the distance of the two (5 um above the last one)
NextMetal(st, i) == {j \in DOMAIN st : j > i /\ st[j].kind = "metal" /\ \A k \in (i + 1)..(j - 1) : st[k].kind # "metal"}
SimpleAbove(st, m) == LET i == Indices(st, m) nx == NextMetal(st, i) top == IF nx = {} THEN Len(st) + 1 ELSE CHOOSE j \in nx : TRUE
                          s == {k \in (i + 1)..(top - 1) : st[k].kind = "simple"}
                      IN [found |-> s # {}, name |-> IF s = {} THEN "" ELSE st[CHOOSE k \in s : \A k2 \in s : k <= k2].name,
                          h |-> IF nx = {} THEN -1 ELSE st[top].z - m.z]
Around(st, m, D, box, excluded, um5) ==
  LET a0 == [d |-> 0, h |-> 0, low |-> 0, flat |-> FALSE, conf |-> FALSE, layers |-> {}]
      used == D[m.name] < Far
      a == IF used THEN Chain(st, m, m.name, D, box, excluded, a0) ELSE a0
      s == SimpleAbove(st, m)
      H == IF s.h = -1 THEN um5 ELSE s.h
      near == used /\ Near(D, m.name, a.d)
  IN a.layers \cup (IF ~s.found \/ s.name \in excluded THEN {}
                    ELSE IF near THEN {Layer(s.name, m.z + a.h, m.z + H)}
                    ELSE IF box THEN {Layer(s.name, m.z + a.low, m.z + H)} ELSE {})
Conductors(st, on, um) ==
  UNION {UNION {IF p[2] = e.name /\ e.kind = "metal" THEN {Layer(p[1], e.z, e.z + e.th)}
                ELSE IF p[2] = e.name /\ e.kind = "diffusion" THEN {Layer(p[1], 0, um \div 10)} ELSE {},
                IF e.kind = "metal" /\ e.con # "" /\ p[2] = e.con THEN {Layer(p[1], e.z + e.th, e.z + e.th + e.cth)}
                ELSE IF e.kind = "diffusion" /\ e.con # "" /\ p[2] = e.con THEN {Layer(p[1], 0, e.cth)} ELSE {}}
         : e \in SeqSet(st), p \in on}
\* um: a micrometre in tenths of a unit
Above(st, D, on, box, excluded, um) ==
  LET sub == SelectSeq(st, LAMBDA e : e.kind = "subs")[1]
      fox == SelectSeq(st, LAMBDA e : e.kind = "fox")[1]
      ds == Diffs(st)
  IN Conductors(st, on, um)
     \cup (IF box /\ \A i \in DOMAIN ds : ~Near(D, ds[i].name, um \div 10) THEN {Layer("VSUBS", -sub.h - sub.th, -sub.h)} ELSE {})
     \cup (IF box THEN {Layer(fox.name, 0, Metals(st)[1].z)} ELSE {})
     \cup UNION {Around(st, Metals(st)[i], D, box, excluded, 5 * um) : i \in DOMAIN Metals(st)}
\* a layer that ends before it begins is none
Real(layers) == {L \in layers : L.z0 < L.z1}
RECURSIVE Names(_, _)
Names(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Names(Tail(s), seen) ELSE <<Head(s)>> \o Names(Tail(s), seen \cup {Head(s)})
\* space belongs to a net first, then to the substrate, then to field oxide, then to dielectrics as they come in the stack
OwnerOrder(st, nets) == Names(nets \o <<"VSUBS">> \o [i \in 1..Len(SelectSeq(st, LAMBDA e : e.kind = "fox")) |-> SelectSeq(st, LAMBDA e : e.kind = "fox")[i].name]
     \o LET ds == SelectSeq(st, LAMBDA e : e.kind \in {"sidewall", "conformal", "simple"}) IN [i \in DOMAIN ds |-> ds[i].name], {})
Bounds(layers) == {L.z0 : L \in layers} \cup {L.z1 : L \in layers}
\* going up: <<height, owner below, owner above>>
Crossings(st, nets, D, on, box, excluded, um) ==
  LET layers == Real(Above(st, D, on, box, excluded, um))
      order == OwnerOrder(st, nets)
      zs == Bounds(layers)
      own(z) == Owner(order, layers, 0, z)
      below(z) == LET s == {y \in zs : y < z} IN IF s = {} THEN "" ELSE own(CHOOSE y \in s : \A y2 \in s : y2 <= y)
  IN {c \in {<<z, below(z), own(z)>> : z \in zs} : c[2] # c[3]}
=============================================================================
