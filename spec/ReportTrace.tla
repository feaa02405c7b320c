---------------------------- MODULE ReportTrace ----------------------------
(* Each record: a rectilinear layout, the elements in the results of the real extractor, and the items of the report   *)
(* file it wrote, with their markers.  Coordinates in nm; values in aF.                                   *)
(* key = <<kind, inside / bottom layer, its net, outside / top layer, its net>>; layer 0 = substrate, net 0.           *)
(* items: [key, no, v, d, len, edges = <<[x1, y1, x2, y2]>>, tops, bots, areas, outs, shields = <<rectangles>>]        *)
(* r.coef[i+1][j], r.cap[k], r.off[k], r.G[k][j+1][d+1]: capacitance tables; r.S, r.Q: their scales; r.U: nm per unit; r.A: units of area per µm^2 *)
EXTENDS StripGeo, Report, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad

MaxOf(a, b) == IF a > b THEN a ELSE b
XS(r) == Range(r.xs)
YS(r) == Range(r.ys)
CX(r, c) == ((c - 1) % r.W) + 1
CY(r, c) == ((c - 1) \div r.W) + 1
CellsOf(r, rects) ==
    {c \in 1..(r.W * r.H) : \E q \in Range(rects) : /\ q.x1 <= r.xs[CX(r, c)] /\ r.xs[CX(r, c) + 1] <= q.x2
                                                    /\ q.y1 <= r.ys[CY(r, c)] /\ r.ys[CY(r, c) + 1] <= q.y2}
OnGrid(r, rects) == \A q \in Range(rects) : {q.x1, q.x2} \subseteq XS(r) /\ {q.y1, q.y2} \subseteq YS(r)
\* the rectangles are one polygon of the layer and net
IsPolygon(r, rects, k, a) ==
    LET cs == CellsOf(r, rects)
    IN /\ cs # {}
       /\ IF k = 0 THEN \A c \in 1..(r.W * r.H) : (\E m \in 1..Len(r.lay) : r.lay[m][c] # 0) => c \in cs     \* the substrate
          ELSE /\ OnGrid(r, rects)
               /\ Cardinality({r.poly[k][c] : c \in cs}) = 1     \* (of drawn pieces of) one polygon
               /\ \A c \in cs : r.lay[k][c] = a
Area(r, cs) == FoldLeft(LAMBDA s, c : s + ((r.xs[CX(r, c) + 1] - r.xs[CX(r, c)]) \div r.U) * ((r.ys[CY(r, c) + 1] - r.ys[CY(r, c)]) \div r.U),
                        0, SetToSeq(cs))
OverlapOK(r, it) ==
    LET k == it.key[2]  j == it.key[4]
        both == CellsOf(r, it.tops) \cap CellsOf(r, it.bots)
        cs == CellsOf(r, it.areas)
    IN UNION {
        IF ~IsPolygon(r, it.bots, k, it.key[3]) \/ ~IsPolygon(r, it.tops, j, it.key[5]) THEN {"overlap-polygons"} ELSE {},
        IF ~OnGrid(r, it.areas) \/ cs # {c \in both : <<k, j>> \in Couplings(ColOf(r, c))} THEN {"overlap-area"} ELSE {},
        IF Abs(it.v * r.S * r.A - Area(r, cs) * r.coef[k + 1][j]) > ((51 * r.S * r.A) \div 100) + (Area(r, cs) \div 1000) THEN {"overlap-value"} ELSE {} }

\* ------------------------------------------------------------------------------------------- edges
Flat(e) == e.y1 = e.y2 /\ e.x1 # e.x2
Upright(e) == e.x1 = e.x2 /\ e.y1 # e.y2
Straight(e) == Flat(e) \/ Upright(e)
Lo(e) == IF Flat(e) THEN MinOf(e.x1, e.x2) ELSE MinOf(e.y1, e.y2)
Hi(e) == IF Flat(e) THEN MaxOf(e.x1, e.x2) ELSE MaxOf(e.y1, e.y2)
At(e) == IF Flat(e) THEN e.y1 ELSE e.x1
\* the cells (or 0, outside of the grid) at one side of an edge (s = 1: above / right, -1: below / left)
Spots(e, r) == IF Flat(e) THEN {x \in 1..r.W : Lo(e) <= r.xs[x] /\ r.xs[x + 1] <= Hi(e)}
               ELSE {y \in 1..r.H : Lo(e) <= r.ys[y] /\ r.ys[y + 1] <= Hi(e)}
Rows(e, r) == IF Flat(e) THEN r.ys ELSE r.xs
EdgeOnGrid(e, r) == IF Flat(e) THEN {e.x1, e.x2} \subseteq XS(r) /\ e.y1 \in YS(r) ELSE {e.y1, e.y2} \subseteq YS(r) /\ e.x1 \in XS(r)
LineNo(e, r) == CHOOSE i \in 1..Len(Rows(e, r)) : Rows(e, r)[i] = At(e)
Side(e, r, q, s) == LET i == LineNo(e, r)
                        row == IF s = 1 THEN i ELSE i - 1
                    IN IF row < 1 \/ row > Len(Rows(e, r)) - 1 THEN 0
                       ELSE IF Flat(e) THEN Cell(r, q, row) ELSE Cell(r, row, q)
NetAt(r, k, c) == IF c = 0 THEN 0 ELSE r.lay[k][c]
\* an edge of net a on layer k with its outside at side s
Bounds(r, e, k, a, s) == \A q \in Spots(e, r) : NetAt(r, k, Side(e, r, q, -s)) = a /\ NetAt(r, k, Side(e, r, q, s)) = 0
\* the cells of a strip beside an edge, from distance 0 to far
Strip(r, e, s, far) ==
    {c \in 1..(r.W * r.H) :
        LET lo == IF Flat(e) THEN r.ys[CY(r, c)] ELSE r.xs[CX(r, c)]
            hi == IF Flat(e) THEN r.ys[CY(r, c) + 1] ELSE r.xs[CX(r, c) + 1]
            p == IF Flat(e) THEN CX(r, c) ELSE CY(r, c)
        IN /\ p \in Spots(e, r)
           /\ IF s = 1 THEN lo >= At(e) /\ lo < At(e) + far ELSE hi <= At(e) /\ hi > At(e) - far}
PolyOf(r, k, c) == IF c = 0 THEN 0 ELSE r.poly[k][c]

SidewallOK(r, it) ==
    LET k == it.key[2]  a == it.key[3]  b == it.key[5]
    IN IF Len(it.edges) # 2 \/ \E e \in Range(it.edges) : ~Straight(e) \/ ~EdgeOnGrid(e, r) THEN {"sidewall-edges"} ELSE
       LET e == it.edges[1]  f == it.edges[2]
           s == IF At(f) > At(e) THEN 1 ELSE -1
       IN UNION {
        IF Flat(e) # Flat(f) \/ Lo(e) # Lo(f) \/ Hi(e) # Hi(f) \/ At(e) = At(f) THEN {"sidewall-edges"}
        ELSE UNION {
          IF ~Bounds(r, e, k, a, s) \/ ~Bounds(r, f, k, b, -s) THEN {"sidewall-not-at-the-nets"} ELSE {},
          IF it.d # Abs(At(f) - At(e)) THEN {"sidewall-distance"} ELSE {},
          IF it.len # Hi(e) - Lo(e) THEN {"sidewall-length"} ELSE {},
          \* no other polygon in between
          IF \E c \in Strip(r, e, s, Abs(At(f) - At(e))) : r.lay[k][c] # 0 /\ r.poly[k][c] \notin {PolyOf(r, k, Side(e, r, q, -s)) : q \in Spots(e, r)}
          THEN {"sidewall-not-nearest"} ELSE {} },
        IF Abs(it.v * 2 * (it.d + r.off[k]) * r.Q - it.len * r.cap[k]) > (it.d + r.off[k]) * r.Q + it.len THEN {"sidewall-value"} ELSE {} }

\* a rectangle seen from an edge
Near(e, s, q) == IF Flat(e) THEN (IF s = 1 THEN q.y1 - At(e) ELSE At(e) - q.y2) ELSE (IF s = 1 THEN q.x1 - At(e) ELSE At(e) - q.x2)
Far(e, s, q) == IF Flat(e) THEN (IF s = 1 THEN q.y2 - At(e) ELSE At(e) - q.y1) ELSE (IF s = 1 THEN q.x2 - At(e) ELSE At(e) - q.x1)
RLo(e, q) == IF Flat(e) THEN q.x1 ELSE q.y1
RHi(e, q) == IF Flat(e) THEN q.x2 ELSE q.y2
FringeOK(r, it) ==
    LET k == it.key[2]  a == it.key[3]  j == it.key[4]  b == it.key[5]
    IN IF Len(it.edges) # 1 \/ Len(it.outs) # 1 \/ \E e \in Range(it.edges) : ~Straight(e) \/ ~EdgeOnGrid(e, r) THEN {"fringe-edge"} ELSE
       LET e == it.edges[1]  q == it.outs[1]
           sides == {s \in {1, -1} : Bounds(r, e, k, a, s) /\ Near(e, s, q) >= 0}
       IN IF sides = {} THEN {"fringe-not-at-the-net"} ELSE
          LET s == CHOOSE s \in sides : TRUE
              near == Near(e, s, q)
              far == Far(e, s, q)
              all == Strip(r, e, s, r.halo)
              cells == Strip(r, e, s, far) \ Strip(r, e, s, near)       \* the cells behind the rectangle
              lat == {c \in all : r.lay[k][c] # 0}                       \* obstacles on the same layer
              latAt == {IF Flat(e) THEN (IF s = 1 THEN r.ys[CY(r, c)] - At(e) ELSE At(e) - r.ys[CY(r, c) + 1])
                        ELSE (IF s = 1 THEN r.xs[CX(r, c)] - At(e) ELSE At(e) - r.xs[CX(r, c) + 1]) : c \in lat}
              first == IF latAt = {} THEN 0 ELSE Min(latAt)
              \* beyond the drawn area there is the substrate only
              margin == IF Flat(e) THEN (IF s = 1 THEN r.ys[r.H + 1] - At(e) ELSE At(e) - r.ys[1])
                        ELSE (IF s = 1 THEN r.xs[r.W + 1] - At(e) ELSE At(e) - r.xs[1])
              Idx(d) == IF d >= r.halo THEN r.halo \div r.U ELSE d \div r.U
          IN UNION {
             IF RLo(e, q) # Lo(e) \/ RHi(e, q) # Hi(e) \/ far <= near THEN {"fringe-strip"} ELSE {},
             IF far > r.halo + 2 * r.dbu THEN {"fringe-beyond-halo"} ELSE {},
             IF \E c \in cells : j \notin FringeTargets(ColOf(r, c), k, a) \/ NetOf(ColOf(r, c), j) # b THEN {"fringe-not-at-the-target"} ELSE {},
             IF j # 0 /\ far > margin THEN {"fringe-not-at-the-target"} ELSE {},
             IF lat # {} /\ far > first THEN {"fringe-shielded"} ELSE {},
             IF lat # {} /\ Len(it.shields) # 1 THEN {"fringe-shield"} ELSE {},
             IF \E h \in Range(it.shields) : RLo(e, h) # Lo(e) \/ RHi(e, h) # Hi(e) \/ Near(e, s, h) # (IF lat # {} THEN first ELSE Near(e, s, h)) \/ Near(e, s, h) < far
             THEN {"fringe-shield"} ELSE {},
             IF near > r.halo THEN {}
             ELSE LET v == ((Hi(e) - Lo(e)) \div r.U) * (r.G[k][j + 1][Idx(far) + 1] - r.G[k][j + 1][Idx(near) + 1])
                      tol == ((Hi(e) - Lo(e)) \div r.U) * (1 + (IF far >= r.halo THEN r.slack[k][j + 1] ELSE 0)) + 501
                  IN IF Abs(1000 * it.v - v) > tol + v \div 20000 THEN {"fringe-value"} ELSE {} }

ItemOK(r, it) == CASE it.key[1] = "o" -> OverlapOK(r, it) [] it.key[1] = "s" -> SidewallOK(r, it) [] OTHER -> FringeOK(r, it)

\* the areas shown for a pair are those where the conductors face each other, each of them once
AreasComplete(r, key) ==
    LET is == SetToSeq({i \in DOMAIN r.items : r.items[i].key = key})
        want == {c \in 1..(r.W * r.H) : LET col == ColOf(r, c)
                                        IN <<key[2], key[4]>> \in Couplings(col) /\ NetOf(col, key[2]) = key[3] /\ NetOf(col, key[4]) = key[5]}
    IN /\ UNION {CellsOf(r, r.items[is[i]].areas) : i \in DOMAIN is} = want
       /\ \A x, y \in DOMAIN is : x < y => CellsOf(r, r.items[is[x]].areas) \cap CellsOf(r, r.items[is[y]].areas) = {}
WantKeys(r) == UNION {LET col == ColOf(r, c) IN {<<"o", ij[1], NetOf(col, ij[1]), ij[2], NetOf(col, ij[2])>> : ij \in {x \in Couplings(col) : r.coef[x[1] + 1][x[2]] > 0}}
                        : c \in 1..(r.W * r.H)}

\* ------------------------------------------------- what each edge sees (shown at the log level DEBUG)
\* r.near: [k, a, e, lo, hi, kids]: from lo to hi along the edge e of net a on layer k, kids[j + 1] = the parts seen of layer j;
\* of its own layer those of other polygons, and last those of the same polygon
Part(n) == LET up == IF Flat(n.e) THEN n.e.x2 > n.e.x1 ELSE n.e.y2 > n.e.y1
               p(v) == IF up THEN v ELSE -v
           IN IF Flat(n.e) THEN [x1 |-> n.e.x1 + p(n.lo), y1 |-> n.e.y1, x2 |-> n.e.x1 + p(n.hi), y2 |-> n.e.y1]
              ELSE [x1 |-> n.e.x1, y1 |-> n.e.y1 + p(n.lo), x2 |-> n.e.x1, y2 |-> n.e.y1 + p(n.hi)]
Left(e) == IF Flat(e) THEN (IF e.x2 > e.x1 THEN 1 ELSE -1) ELSE (IF e.y2 > e.y1 THEN -1 ELSE 1)
From(r, e, s, c) == IF Flat(e) THEN (IF s = 1 THEN r.ys[CY(r, c)] - At(e) ELSE At(e) - r.ys[CY(r, c) + 1])
                    ELSE (IF s = 1 THEN r.xs[CX(r, c)] - At(e) ELSE At(e) - r.xs[CX(r, c) + 1])
To(r, e, s, c) == IF Flat(e) THEN (IF s = 1 THEN r.ys[CY(r, c) + 1] - At(e) ELSE At(e) - r.ys[CY(r, c)])
                  ELSE (IF s = 1 THEN r.xs[CX(r, c) + 1] - At(e) ELSE At(e) - r.xs[CX(r, c)])
NearOK(r, n) ==
    IF ~Straight(n.e) \/ n.lo < 0 \/ n.hi <= n.lo THEN {"neighbourhood-edge"} ELSE
    LET f == Part(n)  s == Left(n.e)
        N == Len(r.lay)
    IN IF ~Straight(f) \/ ~EdgeOnGrid(f, r) THEN {"neighbourhood-edge"}
       ELSE IF ~Bounds(r, f, n.k, n.a, s) \/ Hi(f) > Hi(n.e) \/ Lo(f) < Lo(n.e) THEN {"neighbourhood-edge"} ELSE
       LET own == PolyOf(r, n.k, Side(f, r, CHOOSE q \in Spots(f, r) : TRUE, -s))
           strip == Strip(r, f, s, r.halo)
           seen(j, c) == IF j = 0 THEN TRUE ELSE IF j = N + 1 THEN r.lay[n.k][c] # 0 /\ r.poly[n.k][c] = own
                         ELSE IF j = n.k THEN r.lay[j][c] # 0 /\ r.poly[j][c] # own ELSE r.lay[j][c] # 0
       IN UNION {
          LET rs == Range(n.kids[j + 1])
              shown(c) == \E q \in rs : Near(f, s, q) <= From(r, f, s, c) /\ Far(f, s, q) >= MinOf(To(r, f, s, c), r.halo)
              hit(c) == \E q \in rs : Near(f, s, q) < MinOf(To(r, f, s, c), r.halo) /\ Far(f, s, q) > From(r, f, s, c)
          IN UNION {
             IF \E q \in rs : RLo(f, q) # Lo(f) \/ RHi(f, q) # Hi(f) \/ Near(f, s, q) < 0 \/ Far(f, s, q) > r.halo + 2 * r.dbu THEN {"neighbourhood-strip"} ELSE {},
             IF \E c \in strip : seen(j, c) /\ ~shown(c) THEN {"neighbourhood-incomplete"} ELSE {},
             IF \E c \in strip : ~seen(j, c) /\ hit(c) THEN {"neighbourhood-wrong"} ELSE {} } : j \in 0..(N + 1) }
\* every edge of every conductor is shown
EdgesShown(r) ==
    LET parts == {<<n.k, Part(n), Left(n.e)>> : n \in {m \in Range(r.near) : Straight(m.e)}}
        on(k, flat, at, lo, hi, s) == \E p \in parts : p[1] = k /\ p[3] = s /\ Flat(p[2]) = flat /\ At(p[2]) = at /\ Lo(p[2]) <= lo /\ hi <= Hi(p[2])
        at(k, x, y) == IF x < 1 \/ y < 1 \/ x > r.W \/ y > r.H THEN 0 ELSE r.lay[k][Cell(r, x, y)]
    IN \A k \in 1..Len(r.lay), x \in 1..r.W, y \in 1..r.H : at(k, x, y) = 0 \/
          /\ at(k, x, y - 1) # 0 \/ on(k, TRUE, r.ys[y], r.xs[x], r.xs[x + 1], -1)
          /\ at(k, x, y + 1) # 0 \/ on(k, TRUE, r.ys[y + 1], r.xs[x], r.xs[x + 1], 1)
          /\ at(k, x - 1, y) # 0 \/ on(k, FALSE, r.xs[x], r.ys[y], r.ys[y + 1], -1)
          /\ at(k, x + 1, y) # 0 \/ on(k, FALSE, r.xs[x + 1], r.ys[y], r.ys[y + 1], 1)

Verdict(r) ==
    IF r.crash THEN {"crash"} ELSE
    LET keys == {e.key : e \in Range(r.els)} \cup {i.key : i \in Range(r.items)}
    IN UNION {
        IF r.junk > 0 THEN {"not-readable"} ELSE {},
        IF \E key \in keys : ~SameElements(r.els, r.items, key) THEN {"not-one-item-per-element"} ELSE {},
        IF \E key \in keys : ~Numbered(r.items, key) THEN {"numbers"} ELSE {},
        UNION {ItemOK(r, it) : it \in Range(r.items)},
        UNION {NearOK(r, n) : n \in Range(r.near)},
        IF r.debug /\ ~EdgesShown(r) THEN {"neighbourhood-missing"} ELSE {},
        IF \E key \in WantKeys(r) : ~AreasComplete(r, key) THEN {"overlap-areas-incomplete"} ELSE {} }

TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
