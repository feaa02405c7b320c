---------------------------- MODULE LvsContext ----------------------------
(* What the extraction context is to contain for an LVS database, made from the layout r.lay.
   r.layers[n] == [name, known, pair, kind, info, metal]: the LVS layer's name; the technology's entry (pair, kind) when known;
                  the layer of the source layout when it is an original layer (else <<>>); metal: name of the canonical layer
   r.conn: connections, r.glob: sequence of [layer, ...] with a global net, r.lab: label layer |-> layers connected with it
   r.bb: devices are black boxes;  r.plates: the layers of the plates of a capacitor, by terminal
   Coordinates are even for shapes and odd for texts; a square is the unit of area. *)
EXTENDS Hier

Set(s) == {s[i] : i \in DOMAIN s}
Conn(r) == {Set(c) : c \in Set(r.conn)}
Pair(d) == IF d.known THEN d.pair ELSE d.info
Dropped(r, d) == d.known /\ r.bb /\ d.kind \in {"DEVICE_CAPACITOR", "DEVICE_RESISTOR"}
Annotated(r, d) == ~Dropped(r, d) /\ Pair(d) # <<>>
Squares(b) == {x * 4096 + y : x \in {2 * k : k \in (b[2] \div 2)..((b[4] \div 2) - 1)}, y \in {2 * k : k \in (b[3] \div 2)..((b[5] \div 2) - 1)}}

Expected(r) ==
  LET B == TLCEval(FlatBoxes(r.lay, Len(r.lay)))
      T == TLCEval(FlatTexts(r.lay, Len(r.lay)))
      TT == r.lay[Len(r.lay)].texts                                  \* only labels of the top cell join nets and name them for sure
      C == TLCEval(Conn(r))
      Labels(t) == {i \in 1..Len(B) : B[i][1] \in Set(r.lab[t[1]]) /\ On(t, B[i])}
      Tl == TLCEval([k \in 1..Len(TT) |-> Labels(TT[k])])
      Global(i, j) == B[i][1] = B[j][1] /\ B[i][1] \in Set(r.glob)
      net0 == TLCEval(Nets(B, C, Global))
      named == TLCEval([i \in DOMAIN net0 |-> {TT[k][4] : k \in {k \in 1..Len(TT) : \E j \in Tl[k] \cap DOMAIN net0 : net0[j] = net0[i]}}])
      Joined(i, j) == net0[i] = net0[j] \/ (named[i] = named[j] /\ named[i] # {})    \* the nets that are labelled alike are one net
      net == TLCEval(Comps(DOMAIN net0, Joined))
  IN [B |-> B, T |-> T, net |-> net, D |-> DOMAIN net, labels |-> Tl, TT |-> TT]

(* the boxes of the answer: e.layers: Seq([pair, src: Seq([name, pair, nets: Seq([net, boxes: Seq(<<0,x1,y1,x2,y2>>)])])]) *)
Area(s) == UNION {Squares(b) : b \in Set(s)}
Names(nets) == {q.net : q \in Set(nets)}
Of(nets, n) == UNION {Area(q.boxes) : q \in {p \in Set(nets) : p.net = n}}

Faults(r) ==
  LET e == Expected(r)
      a == r.ans
      Lay == 1..Len(r.layers)
      OnL(k) == {i \in e.D : e.B[i][1] = k}
      Full == {k \in Lay : OnL(k) # {} /\ r.layers[k].kind # "LABEL"}
      Shown == {k \in Full : Annotated(r, r.layers[k]) /\ r.layers[k].known}
      Unnamed == {k \in Full : Annotated(r, r.layers[k]) /\ ~r.layers[k].known}
      Pairs == {r.layers[k].pair : k \in Shown}
      got == Set(a.layers)
      \* the names found for the shape i in the answer's layer record s
      Found(i, s) == {q.net : q \in {p \in Set(s.nets) : Area(p.boxes) \cap Squares(e.B[i]) # {}}}
      Src(k) == {s \in UNION {Set(g.src) : g \in got} \cup Set(a.unnamed) : s.name = r.layers[k].name}
      Nm == TLCEval([i \in e.D |-> UNION {Found(i, s) : s \in Src(e.B[i][1])}])
      Here == {i \in e.D : e.B[i][1] \in Shown \cup Unnamed}
  IN (IF Set([k \in DOMAIN a.layers |-> a.layers[k].pair]) # Pairs \/ Cardinality(Pairs) # Len(a.layers) THEN {"layers"} ELSE {})
     \cup {"sources" : g \in {g \in got : \/ {s.name : s \in Set(g.src)} # {r.layers[k].name : k \in {k \in Shown : r.layers[k].pair = g.pair}}
                                          \/ Len(g.src) # Cardinality({s.name : s \in Set(g.src)})
                                          \/ \E s \in Set(g.src) : s.pair # g.pair}}
     \cup (IF {s.name : s \in Set(a.unnamed)} # {r.layers[k].name : k \in Unnamed} \/ Len(a.unnamed) # Cardinality(Unnamed) THEN {"unnamed"} ELSE {})
     \cup {"area" : k \in {k \in Shown \cup Unnamed : \/ Cardinality(Src(k)) # 1
                                                      \/ \E s \in Src(k) : UNION {Area(q.boxes) : q \in Set(s.nets)} # UNION {Squares(e.B[i]) : i \in OnL(k)}}}
     \cup {"onenet" : i \in {i \in Here : Cardinality(Nm[i]) # 1}}
     \cup {"apart" : i \in {i \in Here : \E j \in Here : e.net[i] = e.net[j] /\ Nm[i] # Nm[j]}}
     \cup {"mixed" : i \in {i \in Here : \E j \in Here : e.net[i] # e.net[j] /\ Nm[i] \cap Nm[j] # {}}}
     \cup {"label" : i \in {i \in Here : LET ns == {e.TT[k][4] : k \in {k \in 1..Len(e.TT) : \E j \in e.labels[k] : j \in e.D /\ e.net[j] = e.net[i]}}
                                         IN Cardinality(ns) = 1 /\ Nm[i] # ns /\ ~\E j \in e.D : e.net[j] = e.net[i] /\ e.B[j][1] \in Set(r.glob)}}
     \* ---- queries: shapes of a net, shapes of a layer
     \cup {"shapes_of_net" : q \in {q \in Set(a.ofnet) :
             IF q.pair \notin Pairs THEN q.some
             ELSE \/ ~q.some
                  \/ Area(q.boxes) # UNION {Squares(e.B[i]) : i \in {i \in e.D : /\ e.B[i][1] \in {k \in Shown : r.layers[k].pair = q.pair}
                                                                                /\ Nm[i] = {q.net}}}}}
     \cup {"shapes_of_layer" : q \in {q \in Set(a.oflayer) :
             IF q.pair \notin Pairs THEN q.some
             ELSE LET I == {i \in e.D : e.B[i][1] \in {k \in Shown : r.layers[k].pair = q.pair}}
                      sh == UNION {Squares(e.B[j]) : j \in I}
                  IN \/ ~q.some
                     \/ UNION {Area(p.boxes) : p \in Set(q.nets)} # sh
                     \/ \E p \in Set(q.nets) : Area(p.boxes) # UNION {Squares(e.B[j]) : j \in {j \in I : Nm[j] = {p.net}}}}}
     \* ---- bounding box of everything in the database
     \cup (IF e.D # {} /\ \/ \E i \in e.D : \/ e.B[i][2] < a.bbox[1] \/ e.B[i][3] < a.bbox[2]
                                            \/ e.B[i][4] > a.bbox[3] \/ e.B[i][5] > a.bbox[4]
                          \/ \A i \in e.D : e.B[i][2] > a.bbox[1]
                          \/ \A i \in e.D : e.B[i][3] > a.bbox[2]
                          \/ \A i \in e.D : e.B[i][4] < a.bbox[3]
                          \/ \A i \in e.D : e.B[i][5] < a.bbox[4]
           THEN {"bbox"} ELSE {})
     \* ---- pins: a label on a pin shape of the same metal, for every metal that is present
     \cup LET Metals == {r.layers[k].metal : k \in {k \in Shown : r.layers[k].kind \notin {"PIN", "LABEL"}}} \ {""}
              PinOf(m) == {k \in Shown : r.layers[k].kind = "PIN" /\ r.layers[k].metal = m}
              LabOf(m) == {k \in Lay : r.layers[k].kind = "LABEL" /\ r.layers[k].metal = m}
              Want == UNION {{<<m, e.T[t][4], e.T[t][2], e.T[t][3], CHOOSE n \in Nm[i] : TRUE>>
                                : t \in {t \in 1..Len(e.T) : e.T[t][1] \in LabOf(m) /\ On(e.T[t], e.B[i])
                                                                       /\ \E j \in e.D : e.B[j][1] \in Set(r.lab[e.T[t][1]]) /\ On(e.T[t], e.B[j])}}
                             : <<m, i>> \in {<<m, i>> \in Metals \X Here : e.B[i][1] \in PinOf(m)}}
              Have == {<<p.metal, p.label, p.x, p.y, p.net>> : p \in Set(a.pins)}
          IN IF \E i \in Here : Nm[i] = {} THEN {} ELSE IF Want # Have THEN {"pins"} ELSE {}
     \* ---- devices: every terminal is on the net of the shape it lies on
     \cup {"device" : d \in {d \in Set(a.devices) : \E t \in Set(d.terms) :
             \E g \in Set(t.boxes) : ~\E i \in Here : /\ Pair(r.layers[e.B[i][1]]) = t.pair
                                                      /\ Squares(g) \cap Squares(e.B[i]) # {} /\ Nm[i] = {t.net}}}
     \cup (IF r.ndev >= 0 /\ (Len(a.devices) # r.ndev
                             \/ \E d \in Set(a.devices) : Len(d.terms) # 2 \/ \E t \in Set(d.terms) : (r.bb = FALSE /\ Len(t.boxes) = 0))
           THEN {"devices"} ELSE {})
=============================================================================
