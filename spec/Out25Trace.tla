----------------------------- MODULE Out25Trace -----------------------------
(* Each record: the summary of a run and what was written for it.                                                 *)
(* caps, res: summary [a, b, v, g] (v in aF, mOhm; g: [m, e], in F, ohm); csv: <<[dev, t, n, a, b, v]>>; hascsv                                 *)
(* orig: devices of the extracted circuit [s, cap]; others: devices of the output that are not parasitics;       *)
(* devs: parasitic devices of the output [t, a, b, g, name]; nets/orignets: net names (when known)                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Abs(x) == IF x < 0 THEN -x ELSE x
\* the same value up to the seventh significant digit (x.m * 10^(x.e - 6), in F or ohm)
NearUp(x, y) == x.e = y.e + 1 /\ x.m <= 1000001 /\ y.m >= 9999990
Near(x, y) == (x.e = y.e /\ Abs(x.m - y.m) <= 2) \/ NearUp(x, y) \/ NearUp(y, x)
Listed(x, y) == Abs(x.v - y.v) <= 1              \* in the CSV: three decimals of fF or ohm
Exact(x, y) == Near(x.g, y.g)                    \* in the netlist
\* the entries e and the devices/rows d of kind t correspond one to one
OneToOne(es, ds, Is(_, _)) ==
                         /\ Len(es) = Len(ds)
                         /\ \A e \in Range(es) : Cardinality({i \in DOMAIN ds : {ds[i].a, ds[i].b} = {e.a, e.b}}) = 1
                         /\ \A d \in Range(ds) : \E e \in Range(es) : {d.a, d.b} = {e.a, e.b} /\ Is(d, e)
Kind(s, t) == SelectSeq(s, LAMBDA d : d.t = t)
Expected(r) == {d.s : d \in {x \in Range(r.orig) : r.blackbox \/ ~x.cap}}
NetsOf(s) == {o.a : o \in Range(s)} \cup {o.b : o \in Range(s)}
Verdict(r) ==
  IF r.crash THEN {"crash"} ELSE
  UNION {
    IF ~OneToOne(r.caps, Kind(r.devs, "C"), Exact) THEN {"netlist-capacitors"} ELSE {},
    IF ~OneToOne(r.res, Kind(r.devs, "R"), Exact) THEN {"netlist-resistors"} ELSE {},
    IF r.hascsv /\ ~OneToOne(r.caps, Kind(r.csv, "C"), Listed) THEN {"csv-capacitors"} ELSE {},
    IF r.hascsv /\ ~OneToOne(r.res, Kind(r.csv, "R"), Listed) THEN {"csv-resistors"} ELSE {},
    IF r.hascsv /\ \E t \in {"C", "R"} : \E i \in DOMAIN Kind(r.csv, t) : Kind(r.csv, t)[i].n # i THEN {"csv-numbering"} ELSE {},
    IF Cardinality({<<d.t, d.name>> : d \in Range(r.devs)}) # Len(r.devs) THEN {"device-names"} ELSE {},
    IF Range(r.others) # Expected(r) \/ Len(r.others) # Cardinality(Expected(r)) THEN {"extracted-devices"} ELSE {},
    IF r.pins # r.origpins THEN {"pins"} ELSE {},
    IF ~r.hasnets THEN {} ELSE
    IF Range(r.nets) # (Range(r.orignets) \cup NetsOf(r.caps) \cup NetsOf(r.res) \cup {"VSUBS", "FC_GND"})
       \/ Cardinality(Range(r.nets)) # Len(r.nets) THEN {"nets"} ELSE {} }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
