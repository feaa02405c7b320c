---------------------------- MODULE FringeTrace ----------------------------
(* Each record: a rectilinear layout and the side overlap (fringe) table of the real extractor.                       *)
(* r.G[k][j+1][d+1]: fringe capacitance per unit of edge length accumulated between the edge and distance d, for a    *)
(* field from layer k to layer j (0 = substrate): coefficient of (k, j) times the arctangent profile of the pair.      *)
(* r.slack[k][j+1]: what the search distance beyond the halo (2 database units) adds; r.thr: contributions up to this may be dropped.          *)
EXTENDS StripGeo, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad

\* first obstacle on the same layer; Reach + 1 = none
RECURSIVE Lateral(_, _, _, _, _, _)
Lateral(r, k, x, y, d, i) ==
    IF i > Reach(r, x, y, d) THEN i
    ELSE IF r.lay[k][CellAt(r, x, y, d, i)] # 0 THEN i ELSE Lateral(r, k, x, y, d, i + 1)

\* one piece of the strip: layer, net, edge, target, near, far
Piece(r, f, k, a, len, j, b, near, far) ==
    LET cut == MinOf(far, r.halo)
        v == len * (r.G[k][j + 1][cut + 1] - r.G[k][j + 1][near + 1])
        tl == len + (IF far >= r.halo THEN len * r.slack[k][j + 1] ELSE 0)
        key == <<k, a, j, b>>
        g == Add(f, <<"v", key>>, v)
        h == Add(g, <<"t", key>>, tl)
    IN Add(h, <<"d", key>>, IF v <= r.thr THEN v ELSE 0)

EdgeContribution(r, f, e) ==
    LET k == e[1]  x == e[2]  y == e[3]  d == e[4]
        a == r.lay[k][Cell(r, x, y)]
        n == Reach(r, x, y, d)
        lat == Lateral(r, k, x, y, d, 1)
        len == EdgeLen(r, x, y, d)
        cells == SelectSeq([i \in 1..n |-> i], LAMBDA i : i < lat /\ NearAt(r, x, y, d, i) <= r.halo)
        OneCell(g, i) == LET col == ColOf(r, CellAt(r, x, y, d, i))
                             near == NearAt(r, x, y, d, i)
                             far == IF i = n THEN (CASE d = 1 -> r.xs[r.W + 1] - r.xs[x + 1]
                                                     [] d = 2 -> r.xs[x] - r.xs[1]
                                                     [] d = 3 -> r.ys[r.H + 1] - r.ys[y + 1]
                                                     [] OTHER -> r.ys[y] - r.ys[1])
                                    ELSE NearAt(r, x, y, d, i + 1)
                         IN FoldLeft(LAMBDA h, j : Piece(r, h, k, a, len, j, NetOf(col, j), near, far), g,
                                     SetToSeq(FringeTargets(col, k, a)))
        f1 == FoldLeft(OneCell, f, cells)
        \* beyond the drawn area there is only the substrate
        edge0 == IF n = 0 THEN 0 ELSE (CASE d = 1 -> r.xs[r.W + 1] - r.xs[x + 1] [] d = 2 -> r.xs[x] - r.xs[1]
                                         [] d = 3 -> r.ys[r.H + 1] - r.ys[y + 1] [] OTHER -> r.ys[y] - r.ys[1])
    IN IF lat > n /\ edge0 <= r.halo THEN Piece(r, f1, k, a, len, 0, 0, edge0, r.halo) ELSE f1

Expected(r) == FoldLeft(LAMBDA f, e : EdgeContribution(r, f, e), <<>>, SetToSeq(Edges(r)))
Observed(r) == FoldLeft(LAMBDA f, o : Add(f, <<o.k, o.a, o.j, o.b>>, o.v), <<>>, r.obs)

Verdict(r) ==
    IF r.crash THEN {"crash"} ELSE
    LET e == Expected(r)
        o == Observed(r)
        keys == {q[2] : q \in {q \in DOMAIN e : q[1] = "v"}}
        val(q) == e[<<"v", q>>]
        tol(q) == e[<<"t", q>>] + 2 + val(q) \div 20000
        low(q) == val(q) - e[<<"d", q>>] - tol(q)
    IN UNION { IF \E q \in keys : q \notin DOMAIN o /\ low(q) > 0 THEN {"missing-fringe"} ELSE {},
               IF \E q \in DOMAIN o : q \notin keys THEN {"spurious-fringe"} ELSE {},
               IF \E q \in keys \cap DOMAIN o : o[q] > val(q) + tol(q) THEN {"fringe-too-large"} ELSE {},
               IF \E q \in keys \cap DOMAIN o : o[q] < low(q) THEN {"fringe-too-small"} ELSE {},
               IF r.unknown > 0 THEN {"unknown-layer-or-net"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
