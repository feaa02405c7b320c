------------------------------ MODULE StripGeo ------------------------------
(* Edges of a grid layout and the strips beside them. r.xs, r.ys: coordinates of the grid lines (units).              *)
(* r.lay[k][c] = net on layer k in cell c = (y-1)*W + x; r.poly[k][c] = polygon of that cell (equal within a polygon) *)
EXTENDS Stack25D, TLC
Dirs == 1..4     \* +x, -x, +y, -y
Cell(r, x, y) == (y - 1) * r.W + x
\* number of cells beyond the edge of cell (x, y) in a direction
Reach(r, x, y, d) == CASE d = 1 -> r.W - x [] d = 2 -> x - 1 [] d = 3 -> r.H - y [] OTHER -> y - 1
CellAt(r, x, y, d, i) == CASE d = 1 -> Cell(r, x + i, y) [] d = 2 -> Cell(r, x - i, y)
                           [] d = 3 -> Cell(r, x, y + i) [] OTHER -> Cell(r, x, y - i)
NearAt(r, x, y, d, i) == CASE d = 1 -> r.xs[x + i] - r.xs[x + 1] [] d = 2 -> r.xs[x] - r.xs[x - i + 1]
                           [] d = 3 -> r.ys[y + i] - r.ys[y + 1] [] OTHER -> r.ys[y] - r.ys[y - i + 1]
EdgeLen(r, x, y, d) == IF d \in {1, 2} THEN r.ys[y + 1] - r.ys[y] ELSE r.xs[x + 1] - r.xs[x]
IsEdge(r, k, x, y, d) == /\ r.lay[k][Cell(r, x, y)] # 0
                         /\ (Reach(r, x, y, d) = 0 \/ r.lay[k][CellAt(r, x, y, d, 1)] # r.lay[k][Cell(r, x, y)])
Edges(r) == {e \in (1..Len(r.lay)) \X (1..r.W) \X (1..r.H) \X Dirs : IsEdge(r, e[1], e[2], e[3], e[4])}
ColOf(r, c) == [k \in 1..Len(r.lay) |-> r.lay[k][c]]
Add(f, key, w) == IF key \in DOMAIN f THEN [f EXCEPT ![key] = @ + w] ELSE f @@ (key :> w)
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
=============================================================================
