--------------------------- MODULE SidewallTrace ---------------------------
(* Each record: a rectilinear layout and the sidewall table of the real extractor.                                    *)
(* r.cap[k], r.off[k]: sidewall coefficient and offset of layer k; r.halo; r.S: scale of the observed values          *)
EXTENDS StripGeo, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad

\* steps to the nearest cell of another polygon on the same layer within the halo, 0 = none
RECURSIVE Walk(_, _, _, _, _, _)
Walk(r, k, x, y, d, i) ==
    IF i > Reach(r, x, y, d) THEN 0
    ELSE IF NearAt(r, x, y, d, i) > r.halo THEN 0
    ELSE LET c == CellAt(r, x, y, d, i)
         IN IF r.lay[k][c] # 0 /\ r.poly[k][c] # r.poly[k][Cell(r, x, y)] THEN i ELSE Walk(r, k, x, y, d, i + 1)

Pair(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
\* half of the capacitance is contributed by each of the two facing edges
Term(r, k, len, dist) == LET den == 2 * (dist + r.off[k])
                         IN (2 * len * r.cap[k] * r.S + den) \div (2 * den)
Contribution(r, f, e) ==
    LET k == e[1]  x == e[2]  y == e[3]  d == e[4]
        i == Walk(r, k, x, y, d, 1)
    IN IF i = 0 THEN f
       ELSE LET a == r.lay[k][Cell(r, x, y)]
                b == r.lay[k][CellAt(r, x, y, d, i)]
            IN IF a = b THEN f
               ELSE LET g == Add(f, <<"n", k, Pair(a, b)>>, 1)
                    IN Add(g, <<"v", k, Pair(a, b)>>, Term(r, k, EdgeLen(r, x, y, d), NearAt(r, x, y, d, i)))
Expected(r) == FoldLeft(LAMBDA f, e : Contribution(r, f, e), <<>>, SetToSeq(Edges(r)))
Observed(r) == FoldLeft(LAMBDA f, o : Add(f, <<o.k, Pair(o.a, o.b)>>, o.v), <<>>, r.obs)

Verdict(r) ==
    IF r.crash THEN {"crash"} ELSE
    LET e == Expected(r)
        o == Observed(r)
        keys == {<<q[2], q[3]>> : q \in {q \in DOMAIN e : q[1] = "v"}}
        val(q) == e[<<"v", q[1], q[2]>>]
        tol(q) == e[<<"n", q[1], q[2]>>] + 1 + val(q) \div 20000
    IN UNION { IF \E q \in keys : q \notin DOMAIN o /\ r.cap[q[1]] > 0 THEN {"missing-sidewall"} ELSE {},
               IF \E q \in DOMAIN o : q \notin keys THEN {"spurious-sidewall"} ELSE {},
               IF \E q \in keys \cap DOMAIN o : Abs(o[q] - val(q)) > tol(q) THEN {"wrong-capacitance"} ELSE {},
               IF r.unknown > 0 THEN {"unknown-layer-or-net"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
