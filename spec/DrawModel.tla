----------------------------- MODULE DrawModel -----------------------------
(* A writer visits the ports, then instances and devices in any order; nets get numbers as they turn up; cells are     *)
(* filed under keys.  KeyBy = "instance": the drawing is the circuit.  KeyBy = "circuit": instances are lost.           *)
EXTENDS Draw
CONSTANTS NetNames, MaxPorts, MaxDevs, MaxSubs, KeyBy
VARIABLES c, todo, ids, d, done
vars == <<c, todo, ids, d, done>>
\* devices with the same name but of another kind, instances with the same name as devices
DevSet == [kind : {"C", "R"}, name : {"1", "2"}, a : NetNames, b : NetNames, v : {12}]
SubSet == [name : {"1", "2"}, model : {"M"}, pins : NetNames \X NetNames]
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Names(s) == Cardinality({<<s[i].name>> : i \in DOMAIN s}) = Len(s)
PortSeqs == {p \in SeqsTo([name : NetNames, net : NetNames], MaxPorts) : Names(p) /\ \A i \in DOMAIN p : p[i].name = p[i].net}
DevSeqs == {s \in SeqsTo(DevSet, MaxDevs) : \A i, j \in DOMAIN s : i < j => <<s[i].kind, s[i].name>> # <<s[j].kind, s[j].name>>}
InstSeqs == {s \in SeqsTo(SubSet, MaxSubs) : Names(s)}
Init == /\ c \in [name : {"TOP"}, ports : PortSeqs, devs : DevSeqs, subs : InstSeqs]
        /\ todo = {<<"p", i>> : i \in DOMAIN c.ports} \cup {<<"s", i>> : i \in DOMAIN c.subs} \cup {<<"d", i>> : i \in DOMAIN c.devs}
        /\ ids = <<>> /\ d = [mods |-> <<"TOP">>, ports |-> <<>>, cells |-> <<>>] /\ done = FALSE
\* ids: the nets in the order they turned up
With(s, n) == IF n \in Range(s) THEN s ELSE Append(s, n)
Id(s, n) == CHOOSE i \in DOMAIN s : s[i] = n
\* a cell takes the place of one with the same key
File(cells, x) == IF \E i \in DOMAIN cells : cells[i].key = x.key THEN [i \in DOMAIN cells |-> IF cells[i].key = x.key THEN x ELSE cells[i]]
                  ELSE Append(cells, x)
Port == \E i \in DOMAIN c.ports :
          /\ <<"p", i>> \in todo /\ todo' = todo \ {<<"p", i>>}
          /\ ids' = With(ids, c.ports[i].net)
          /\ d' = [d EXCEPT !.ports = Append(@, [name |-> c.ports[i].name, bits |-> <<Id(ids', c.ports[i].net)>>])]
          /\ UNCHANGED <<c, done>>
Sub == \E i \in DOMAIN c.subs :
          LET x == c.subs[i]
              s == FoldLeft(With, ids, x.pins)
          IN /\ <<"s", i>> \in todo /\ todo' = todo \ {<<"s", i>>}
             /\ ids' = s
             /\ d' = [d EXCEPT !.cells = File(@, [key |-> IF KeyBy = "instance" THEN "X" \o x.name ELSE x.model \o "0", type |-> "$" \o x.model,
                        conns |-> [k \in DOMAIN x.pins |-> [pin |-> PinText(k, x.pins[k]), bits |-> <<Id(s, x.pins[k])>>]], v |-> 0, text |-> ""])]
             /\ UNCHANGED <<c, done>>
Dev == \E i \in DOMAIN c.devs :
          LET x == c.devs[i]
              s == With(With(ids, x.a), x.b)
          IN /\ <<"d", i>> \in todo /\ todo' = todo \ {<<"d", i>>}
             /\ ids' = s
             /\ d' = [d EXCEPT !.cells = File(@, [key |-> x.kind \o x.name, type |-> TypeOf(x.kind),
                        conns |-> <<[pin |-> "A", bits |-> <<Id(s, x.a)>>], [pin |-> "B", bits |-> <<Id(s, x.b)>>]>>, v |-> (x.v + 5) \div 10, text |-> ""])]
             /\ UNCHANGED <<c, done>>
Ground == /\ todo = {} /\ ~done
          /\ done' = TRUE
          /\ LET gs == SetToSeq(GroundNames \cap Range(ids))
             IN d' = [d EXCEPT !.cells = @ \o [i \in DOMAIN gs |-> [key |-> "gnd" \o ToString(i), type |-> "gnd",
                                                conns |-> <<[pin |-> "A", bits |-> <<Id(ids, gs[i])>>]>>, v |-> 0, text |-> gs[i]]]]
          /\ UNCHANGED <<c, todo, ids>>
Next == Port \/ Sub \/ Dev \/ Ground
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == done => Faults(c, d) = {}
\* filed under the name of the circuit, a second instance is lost
Lost == done /\ Len(c.subs) > 1 => "instance" \in Faults(c, d)
Ends == <>done
=============================================================================
