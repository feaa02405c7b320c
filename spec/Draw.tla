-------------------------------- MODULE Draw --------------------------------
(* The drawing of a circuit: ports, resistors, capacitors, subcircuit instances and ground symbols, joined by bits.   *)
(* c: [name, ports = <<[name, net]>>, devs = <<[kind, name, a, b, v]>>, subs = <<[name, model, pins = <<net>>]>>]   *)
(* d: [mods = <<name>>, ports = <<[name, bits]>>, cells = <<[key, type, conns = <<[pin, bits]>>, v, text]>>]        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
GroundNames == {"VSUBS", "GND"}
TypeOf(kind) == IF kind = "C" THEN "c_v" ELSE "r_v"
Abs(x) == IF x < 0 THEN -x ELSE x
\* values: 1/10 aF or 1/10 mOhm in the circuit, aF or mOhm in the drawing
Near(v, shown) == Abs(10 * shown - v) <= 6
UsedNets(c) == {p.net : p \in Range(c.ports)} \cup UNION {{x.a, x.b} : x \in Range(c.devs)} \cup UNION {Range(x.pins) : x \in Range(c.subs)}
PinText(i, n) == ToString(i - 1) \o "=" \o n

\* what each part of the circuit looks like, pins with their nets
PinsOfDev(x) == {<<"A", x.a>>, <<"B", x.b>>}
PinsOfSub(x) == {<<PinText(i, x.pins[i]), x.pins[i]>> : i \in DOMAIN x.pins}
DevCells(d, x) == {i \in DOMAIN d.cells : d.cells[i].key = x.kind \o x.name}
SubCells(d, x) == {i \in DOMAIN d.cells : d.cells[i].type = "$" \o x.model /\ {q.pin : q \in Range(d.cells[i].conns)} = {p[1] : p \in PinsOfSub(x)}}
GndCells(d) == {i \in DOMAIN d.cells : d.cells[i].type = "gnd"}
Like(c, x) == {i \in DOMAIN c.subs : c.subs[i].model = x.model /\ PinsOfSub(c.subs[i]) = PinsOfSub(x)}

\* <<net, bits>> pairs of pins with nets and the connections of a cell
Joined(pins, conns) == {<<p[2], q.bits>> : <<p, q>> \in {y \in pins \X Range(conns) : y[1][1] = y[2].pin}}
Pairs(c, d) ==
    UNION {{<<p.net, q.bits>> : q \in {q \in Range(d.ports) : q.name = p.name}} : p \in Range(c.ports)}
    \cup UNION {UNION {Joined(PinsOfDev(x), d.cells[i].conns) : i \in DevCells(d, x)} : x \in Range(c.devs)}
    \cup UNION {UNION {Joined(PinsOfSub(x), d.cells[i].conns) : i \in SubCells(d, x)} : x \in Range(c.subs)}
    \cup {<<d.cells[i].text, q.bits>> : <<i, q>> \in UNION {{<<j, q>> : q \in Range(d.cells[j].conns)} : j \in GndCells(d)}}

Faults(c, d) == UNION {
    IF d.mods # <<c.name>> THEN {"module"} ELSE {},
    IF {p.name : p \in Range(c.ports)} # {p.name : p \in Range(d.ports)} \/ Len(d.ports) # Len(c.ports) THEN {"ports"} ELSE {},
    IF \E x \in Range(c.devs) : \/ Cardinality(DevCells(d, x)) # 1
                                \/ \E i \in DevCells(d, x) : \/ d.cells[i].type # TypeOf(x.kind)
                                                             \/ {q.pin : q \in Range(d.cells[i].conns)} # {"A", "B"}
    THEN {"device"} ELSE {},
    IF \E x \in Range(c.devs) : \E i \in DevCells(d, x) : ~Near(x.v, d.cells[i].v) THEN {"value"} ELSE {},
    IF \E x \in Range(c.subs) : Cardinality(SubCells(d, x)) # Cardinality(Like(c, x)) THEN {"instance"} ELSE {},
    LET gs == GroundNames \cap UsedNets(c)
    IN IF Cardinality(GndCells(d)) # Cardinality(gs) \/ {d.cells[i].text : i \in GndCells(d)} # gs
          \/ \E i \in GndCells(d) : Len(d.cells[i].conns) # 1
       THEN {"ground"} ELSE {},
    IF Len(d.cells) # Len(c.devs) + Len(c.subs) + Cardinality(GndCells(d)) THEN {"more-than-the-circuit"} ELSE {},
    LET ps == Pairs(c, d)
    IN UNION { IF \E x \in ps : Len(x[2]) # 1 THEN {"bits"} ELSE {},
               IF \E x, y \in ps : x[1] = y[1] /\ x[2] # y[2] THEN {"net-torn-apart"} ELSE {},
               IF \E x, y \in ps : x[1] # y[1] /\ x[2] = y[2] THEN {"nets-joined"} ELSE {} } }

\* which cell is drawn: rq = [circs = <<[name, top]>>, want = name or "", exe, input]
Tops(rq) == {i \in DOMAIN rq.circs : rq.circs[i].top}
Eligible(rq) == IF rq.want = "" THEN Tops(rq) ELSE {i \in DOMAIN rq.circs : rq.circs[i].name = rq.want}
Drawable(rq) == rq.input /\ rq.exe # "missing" /\ Cardinality(Eligible(rq)) = 1
CellOf(rq) == rq.circs[CHOOSE i \in Eligible(rq) : TRUE].name
=============================================================================
