---------------------------- MODULE SolidTrace ----------------------------
(* Faces are checked against triangles. The plane is divided into rectangles of W x H, and these by their diagonals    *)
(* into the quarters 0 N, 1 E, 2 S, 3 W; the quarter d of rectangle (x, y) is cell ((y * nx + x) * 4 + d).             *)
(* Records: nx, ny, W, H, zs, order, layers <<[name, cells : <<int>>, z0, z1]>>                                        *)
(*  groups: <<[plane, c, s, out, in, tris]>>: triangles of one plane, all facing the same way:                        *)
(*   plane "h": z = c, "x": x = c, "y": y = c, "p": H x + W y = c, "m": H x - W y = c                                  *)
(*   s: their normal is that of the plane (1) or opposite (-1), pointing to the body `out`, away from `in`             *)
(*   tris: <<u1, v1, u2, v2, u3, v3>>: (x, y) in plane h, (y, z) in plane x, (x, z) in the others                       *)
(*  stl: the same for the surface of each body (in = the body, out is not used)                                       *)
(*  cls: <<<<name, class>>>> materials that share a permittivity are one class (named after one of them, "" the void):  *)
(*   groups are given by classes, and faces between equal classes do not matter to the field                          *)
(*  sloped : some layer is not made of whole rectangles                                                              *)
(*  crash, strange : number of triangles in no such plane                                                             *)
EXTENDS Solid, TLC, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
Set(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
\* twice the signed area of p q r
Turn(pu, pv, qu, qv, ru, rv) == (qu - pu) * (rv - pv) - (qv - pv) * (ru - pu)
Area2(t) == Abs(Turn(t[1], t[2], t[3], t[4], t[5], t[6]))
\* 1 inside, 0 outside, 2 on the border
Side(t, u, v) == LET a == Turn(t[1], t[2], t[3], t[4], u, v)
                     b == Turn(t[3], t[4], t[5], t[6], u, v)
                     c == Turn(t[5], t[6], t[1], t[2], u, v) IN
                 IF (a > 0 /\ b > 0 /\ c > 0) \/ (a < 0 /\ b < 0 /\ c < 0) THEN 1
                 ELSE IF (a >= 0 /\ b >= 0 /\ c >= 0) \/ (a <= 0 /\ b <= 0 /\ c <= 0) THEN 2 ELSE 0
\* how many triangles cover the first sample point that is on no border (-1: all are)
RECURSIVE Hits(_, _)
Hits(tris, samples) == IF samples = <<>> THEN -1
   ELSE LET p == Head(samples) s == [i \in DOMAIN tris |-> Side(tris[i], p[1], p[2])] IN
        IF \E i \in DOMAIN s : s[i] = 2 THEN Hits(tris, Tail(samples)) ELSE Cardinality({i \in DOMAIN s : s[i] = 1})
Id(r, x, y, d) == IF x < 0 \/ y < 0 \/ x >= r.nx \/ y >= r.ny THEN -1 ELSE (y * r.nx + x) * 4 + d
\* owners of all cells in all slabs
Owners(r) == LET L == {[name |-> a.name, cells |-> Set(a.cells), z0 |-> a.z0, z1 |-> a.z1] : a \in Set(r.layers)} IN
             [k \in 0..Len(r.zs) |-> [q \in 0..(r.nx * r.ny * 4 - 1) |-> IF k = 0 \/ k = Len(r.zs) THEN "" ELSE Owner(r.order, L, q, r.zs[k])]]
At(O, k, q) == IF q = -1 THEN "" ELSE O[k][q]
Weights == <<<<3, 2, 4>>, <<5, 1, 3>>, <<2, 6, 1>>>>
QuarterSamples(r, x, y, d) ==
  LET X == x * r.W Y == y * r.H cx == X + r.W \div 2 cy == Y + r.H \div 2
      P == IF d = 0 THEN <<X, Y + r.H, X + r.W, Y + r.H>> ELSE IF d = 1 THEN <<X + r.W, Y, X + r.W, Y + r.H>>
           ELSE IF d = 2 THEN <<X, Y, X + r.W, Y>> ELSE <<X, Y, X, Y + r.H>> IN
  [i \in 1..3 |-> LET w == Weights[i] n == w[1] + w[2] + w[3] IN
     <<(w[1] * P[1] + w[2] * P[3] + w[3] * cx) \div n, (w[1] * P[2] + w[2] * P[4] + w[3] * cy) \div n>>]
\* sample points of a wall from u to u + du between two heights
WallSamples(u, du, za, zb) == LET f == <<<<4, 6>>, <<3, 3>>, <<7, 5>>>> IN [i \in 1..3 |-> <<u + (du * f[i][1]) \div 11, za + ((zb - za) * f[i][2]) \div 11>>]
\* all places where a face may be: [plane, c, lo, hi, samples, area] (area: twice the one of the projection)
Places(r) == LET O == Owners(r) xs == 0..(r.nx - 1) ys == 0..(r.ny - 1) ks == 1..(Len(r.zs) - 1)
                 dz(k) == r.zs[k + 1] - r.zs[k]
                 wall(pl, c, k, q1, q2, u, du) == [plane |-> pl, c |-> c, lo |-> At(O, k, q1), hi |-> At(O, k, q2),
                     samples |-> WallSamples(u, du, r.zs[k], r.zs[k + 1]), area |-> 2 * du * dz(k)]
             IN UNION {
  {[plane |-> "h", c |-> r.zs[k], lo |-> O[k - 1][Id(r, x, y, d)], hi |-> O[k][Id(r, x, y, d)],
    samples |-> QuarterSamples(r, x, y, d), area |-> (r.W * r.H) \div 2] : x \in xs, y \in ys, d \in 0..3, k \in 1..Len(r.zs)},
  {wall("x", (x + 1) * r.W, k, Id(r, x, y, 1), Id(r, x + 1, y, 3), y * r.H, r.H) : x \in xs \cup {-1}, y \in ys, k \in ks},
  {wall("y", (y + 1) * r.H, k, Id(r, x, y, 0), Id(r, x, y + 1, 2), x * r.W, r.W) : x \in xs, y \in ys \cup {-1}, k \in ks},
  {wall("m", r.W * r.H * (x - y), k, Id(r, x, y, 3), Id(r, x, y, 2), x * r.W, r.W \div 2) : x \in xs, y \in ys, k \in ks},
  {wall("m", r.W * r.H * (x - y), k, Id(r, x, y, 0), Id(r, x, y, 1), x * r.W + r.W \div 2, r.W \div 2) : x \in xs, y \in ys, k \in ks},
  {wall("p", r.W * r.H * (x + y + 1), k, Id(r, x, y, 3), Id(r, x, y, 0), x * r.W, r.W \div 2) : x \in xs, y \in ys, k \in ks},
  {wall("p", r.W * r.H * (x + y + 1), k, Id(r, x, y, 2), Id(r, x, y, 1), x * r.W + r.W \div 2, r.W \div 2) : x \in xs, y \in ys, k \in ks} }
Lo(g) == IF g.s = 1 THEN g.in ELSE g.out
Hi(g) == IF g.s = 1 THEN g.out ELSE g.in
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
RECURSIVE AllTris(_)
AllTris(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs).tris \o AllTris(Tail(gs))
\* the triangles ts cover exactly the places in S of P (all places of this plane); the ends of sloped walls are rounded
Covering(ts, P, S, sloped) ==
  LET got == SumOf([i \in DOMAIN ts |-> Area2(ts[i])], DOMAIN ts)
      want == SumOf([p \in S |-> p.area], S)
  IN UNION {
   IF \E p \in P : Hits(ts, p.samples) \notin {-1, IF p \in S THEN 1 ELSE 0} THEN {"faces-missing-doubled-or-misplaced"} ELSE {},
   IF sloped /\ Abs(got - want) > want \div 40 THEN {"area"} ELSE {},
   IF ~sloped /\ got # want THEN {"area"} ELSE {} }
Class(r, n) == IF \E i \in DOMAIN r.cls : r.cls[i][1] = n THEN r.cls[CHOOSE i \in DOMAIN r.cls : r.cls[i][1] = n][2] ELSE n
GroupVerdict(r, P, pl, c) ==
  LET here == {p \in P : p.plane = pl /\ p.c = c}
      gs == SelectSeq(r.groups, LAMBDA g : g.plane = pl /\ g.c = c)
      key(p) == <<Class(r, p.lo), Class(r, p.hi)>>
      faces == {p \in here : key(p)[1] # key(p)[2]}
      keys == {key(p) : p \in faces} \cup {k \in {<<Lo(gs[i]), Hi(gs[i])>> : i \in DOMAIN gs} : k[1] # k[2]}
  IN UNION {Covering(AllTris(SelectSeq(gs, LAMBDA g : <<Lo(g), Hi(g)>> = k)), here, {p \in faces : key(p) = k}, r.sloped) : k \in keys}
StlVerdict(r, P, pl, c) ==
  LET here == {p \in P : p.plane = pl /\ p.c = c}
      gs == SelectSeq(r.stl, LAMBDA g : g.plane = pl /\ g.c = c)
      names == (Set(r.order) \cup {gs[i].in : i \in DOMAIN gs}) \ {""}
  IN UNION {Covering(AllTris(SelectSeq(gs, LAMBDA g : g.in = n /\ g.s = s)), here,
                     {p \in here : p.lo # p.hi /\ n = (IF s = 1 THEN p.lo ELSE p.hi)}, r.sloped) : n \in names, s \in {1, -1}}
Planes(P, gs) == {<<p.plane, p.c>> : p \in P} \cup {<<gs[i].plane, gs[i].c>> : i \in DOMAIN gs}
Tag(S, pre) == {pre \o s : s \in S}
Verdict(r) == IF r.crash THEN {"crash"} ELSE
  LET P == Places(r) IN
  UNION {IF r.strange > 0 THEN {"triangles-off-any-face"} ELSE {},
         UNION {GroupVerdict(r, P, pc[1], pc[2]) : pc \in Planes(P, r.groups)},
         IF r.usestl THEN Tag(UNION {StlVerdict(r, P, pc[1], pc[2]) : pc \in Planes(P, r.stl)}, "stl-") ELSE {},
         Set(r.flaws)}
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
