---------------------------- MODULE OverlapTrace ----------------------------
(* Each record is one layout and the overlap table that the extractor produced for it.                          *)
(* rec.lay[k][p] = net on layer k in piece p, rec.area[p] = area of the piece in units,                          *)
(* rec.coef[i+1][j] = coefficient for bottom layer i and top layer j, rec.obs = <<[lb, nb, lt, nt, v]>>          *)
EXTENDS Stack25D, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad

ColOf(r, p) == [k \in 1..Len(r.lay) |-> r.lay[k][p]]
\* expected area per <<bottom layer, bottom net, top layer, top net>>
Add(f, key, w) == IF key \in DOMAIN f THEN [f EXCEPT ![key] = @ + w] ELSE f @@ (key :> w)
AddCol(r, f, p) == LET col == ColOf(r, p)
                       ks == SetToSeq(Couplings(col))
                   IN FoldLeft(LAMBDA g, ij : Add(g, <<ij[1], NetOf(col, ij[1]), ij[2], NetOf(col, ij[2])>>, r.area[p]), f, ks)
Expected(r) == FoldLeft(LAMBDA f, p : AddCol(r, f, p), <<>>, [p \in 1..Len(r.area) |-> p])
Observed(r) == FoldLeft(LAMBDA f, o : Add(f, <<o.lb, o.nb, o.lt, o.nt>>, o.v), <<>>, r.obs)
Abs(x) == IF x < 0 THEN -x ELSE x
Value(r, e, k) == e[k] * r.coef[k[1] + 1][k[3]]

Verdict(r) ==
    IF r.crash THEN {"crash"} ELSE
    LET e == Expected(r)
        o == Observed(r)
    IN UNION { IF \E k \in DOMAIN e : k \notin DOMAIN o /\ Value(r, e, k) > r.tol THEN {"missing-coupling"} ELSE {},
               IF \E k \in DOMAIN o : k \notin DOMAIN e /\ Abs(o[k]) > r.tol THEN {"spurious-coupling"} ELSE {},
               IF \E k \in DOMAIN o : k \in DOMAIN e /\ Abs(o[k] - Value(r, e, k)) > r.tol THEN {"wrong-capacitance"} ELSE {},
               IF r.unknown > 0 THEN {"unknown-layer-or-net"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
