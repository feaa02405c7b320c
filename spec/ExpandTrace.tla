---------------------------- MODULE ExpandTrace ----------------------------
(* Records: rec.m (integer matrix), rec.cond (net name of each row), rec.names (nets of the layout), rec.unknown       *)
(*  (a conductor is not a net), rec.keep (devices are kept); rec.ok / rec.error                                        *)
(*  rec.caps : <<[a, b, v]>> capacitors added, rec.ress : <<[a, b, v]>> resistors added                                *)
(*  rec.dev0 / rec.dev : other devices before/after, rec.other0 / rec.other : pins, other circuits, subcircuits        *)
(*  rec.nets : nets of the result; rec.csv : <<[a, b, q]>>, q in 0.01 fF = 10^csvk units; rec.modified                 *)
(*  rec.whole : a run of kpex, with the matrix in the log of the solver (to be averaged); results read from its files   *)
EXTENDS Expand, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Set(s) == {s[i] : i \in DOMAIN s}
Bag(s) == [x \in Set(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
\* numbers of capacitors between two nets of a value (the matrix may have several conductors of one net)
Want(m, nets) == LET C == Capacitors(m, nets) IN
                 [k \in {<<{c.a, c.b}, c.v>> : c \in C} |-> Cardinality({c \in C : <<{c.a, c.b}, c.v>> = k})]
Got(cs) == LET s == SelectSeq(cs, LAMBDA c : c.v # 0) IN
           [k \in {<<{c.a, c.b}, c.v>> : c \in Set(s)} |-> Count(s, LAMBDA c : <<{c.a, c.b}, c.v>> = k)]
Abs(x) == IF x < 0 THEN -x ELSE x
Pow10(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE IF k = 3 THEN 1000 ELSE 10000
Rounded(v, q, k) == 2 * Abs(v - q * Pow10(k)) <= Pow10(k)
CsvRows(r) == /\ Len(r.csv) = Len(r.caps)
              /\ \A i \in DOMAIN r.caps : LET c == r.caps[i] IN
                 Count(r.csv, LAMBDA x : x.d = c.d /\ {x.a, x.b} = {c.a, c.b} /\ Rounded(c.v, x.q, r.csvk)) = 1
Averaged(m) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN m[i][i] ELSE (m[i][j] + m[j][i]) \div 2]]
Matrix(r) == IF r.whole THEN Averaged(r.m) ELSE r.m
Verdict(r) ==
  IF r.unknown THEN (IF r.ok THEN {"unknown-conductor-accepted"} ELSE {}) ELSE
  IF ~r.ok THEN {"failed"} ELSE
  UNION {
    IF Got(r.caps) # Want(Matrix(r), r.cond) THEN {"capacitors"} ELSE {},
    IF Len(r.ress) # 2 \/ {{x.a, x.b} : x \in Set(r.ress)} # Shorts \/ \E x \in Set(r.ress) : x.v # 0 THEN {"ground-shorts"} ELSE {},
    IF r.whole THEN {} ELSE IF Set(r.nets) # ResultNets(Set(r.names)) \/ Len(r.nets) # Cardinality(Set(r.nets)) THEN {"nets"} ELSE {},
    IF Bag(r.dev) # (IF r.keep THEN Bag(r.dev0) ELSE Bag(<<>>)) THEN {"devices"} ELSE {},
    IF r.other # r.other0 THEN {"pins-or-other-circuits"} ELSE {},
    IF ~CsvRows(r) THEN {"csv"} ELSE {},
    IF ~r.whole /\ r.modified THEN {"input-modified"} ELSE {} }
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
