"""Random / systematic grid layouts. A layout is lay[layer][piece] = net index (0 = empty); layers 0..N-1 are conductors.
A piece is a quarter triangle of a grid cell: piece = 4*(y*W+x)+q with q in 0..3 = bottom, right, top, left."""
import klayout.db as kdb


def empty(W, H, n):
    return [[0] * (4 * W * H) for _ in range(n)]


def cell_free(L, W, H, x, y, net, gap=1):
    for yy in range(y - gap, y + gap + 1):
        for xx in range(x - gap, x + gap + 1):
            if 0 <= xx < W and 0 <= yy < H:
                for q in range(4):
                    v = L[4 * (yy * W + xx) + q]
                    if v not in (0, net):
                        return False
    return True


def put_cells(L, W, H, cells, net, gap=1):
    """cells: {(x,y): set(q)}; only if no other net is touched."""
    for (x, y) in cells:
        if not (0 <= x < W and 0 <= y < H) or not cell_free(L, W, H, x, y, net, gap):
            return False
    for (x, y), qs in cells.items():
        for q in qs:
            L[4 * (y * W + x) + q] = net
    return True


FULL = frozenset(range(4))


def rand_shape(rng, W, H, tri):
    k = rng.random()
    x0, y0 = rng.randrange(W), rng.randrange(H)
    w, h = rng.randint(1, max(1, W // 2)), rng.randint(1, max(1, H // 2))
    cells = {(x, y): set(FULL) for x in range(x0, min(W, x0 + w)) for y in range(y0, min(H, y0 + h))}
    if k < 0.2:   # L shape
        for x in range(x0, min(W, x0 + rng.randint(1, W))):
            cells[(x, y0)] = set(FULL)
        for y in range(y0, min(H, y0 + rng.randint(1, H))):
            cells[(x0, y)] = set(FULL)
    elif k < 0.3 and w >= 3 and h >= 3:   # ring
        for x in range(x0 + 1, min(W, x0 + w - 1)):
            for y in range(y0 + 1, min(H, y0 + h - 1)):
                cells.pop((x, y), None)
    elif k < 0.42:   # U shape
        cells = {}
        w, h = rng.randint(3, 5), rng.randint(2, 4)
        for x in range(w):
            for y in range(h):
                if x in (0, w - 1) or y == 0:
                    a, b = (x, y) if rng.random() < 2 else (y, x)
                    if 0 <= x0 + a < W and 0 <= y0 + b < H:
                        cells[(x0 + a, y0 + b)] = set(FULL)
    elif tri and k < 0.6:
        keep = rng.choice([(0, 1), (1, 2), (2, 3), (3, 0), (0,), (1,), (2,), (3,)])
        c = rng.choice(sorted(cells))
        cells[c] = set(keep)
    return cells


def comb(rng, W, H):
    """a comb, a meander or a grating: a connected shape with many corners"""
    k, h = rng.randrange(3), rng.randint(H // 2, H - 1)
    cells = {}
    for x in range(0, W, 2):
        for y in range(h if k else rng.randint(2, h)):
            cells[(x, y)] = set(FULL)
    for x in range(W - 1 if W % 2 == 0 else W):
        if k == 1:                                         # meander
            if x % 2:
                cells[(x, 0 if x % 4 == 1 else h - 1)] = set(FULL)
        else:
            cells[(x, 0)] = set(FULL)
            if k == 2:                                     # with holes
                cells[(x, h - 1)] = set(FULL)
                cells[(x, h // 2)] = set(FULL)
    if rng.random() < 0.5:                                 # upside down
        cells = {(x, H - 1 - y): q for (x, y), q in cells.items()}
    return cells


def rand_layout(rng, W, H, nlayers, nnets, nshapes, tri=False):
    lay = empty(W, H, nlayers)
    for _ in range(nshapes):
        k = rng.randrange(nlayers)
        put_cells(lay[k], W, H, rand_shape(rng, W, H, tri), rng.randint(1, nnets))
    if not tri:
        for k in range(nlayers):
            drop_kissing(lay[k], W, H)
    return lay


def drop_kissing(L, W, H):
    """Fills one cell at every place where two cells of a net touch in a corner only."""
    ch = True
    while ch:
        ch = False
        for y in range(H - 1):
            for x in range(W - 1):
                g = lambda a, b: L[4 * ((y + b) * W + x + a)]
                a, b, c, d = g(0, 0), g(1, 0), g(0, 1), g(1, 1)
                if a and a == d and not b and not c:
                    if cell_free(L, W, H, x + 1, y, a):
                        for q in range(4):
                            L[4 * (y * W + x + 1) + q] = a
                    else:
                        for q in range(4):
                            L[4 * (y * W + x) + q] = 0
                    ch = True
                elif b and b == c and not a and not d:
                    if cell_free(L, W, H, x, y, b):
                        for q in range(4):
                            L[4 * (y * W + x) + q] = b
                    else:
                        for q in range(4):
                            L[4 * (y * W + x + 1) + q] = 0
                    ch = True


def piece_poly(x, y, q, xs, ys):
    x0, x1, y0, y1 = xs[x], xs[x + 1], ys[y], ys[y + 1]
    c = kdb.Point((x0 + x1) // 2, (y0 + y1) // 2)
    p = [kdb.Point(x0, y0), kdb.Point(x1, y0), kdb.Point(x1, y1), kdb.Point(x0, y1)]
    return kdb.Polygon([p[q], p[(q + 1) % 4], c])


def to_polygons(lay, W, H, xs, ys, netname):
    """[(layer, net name, kdb.Polygon)], merged per layer and net"""
    out = []
    for k, L in enumerate(lay):
        nets = sorted(set(L) - {0})
        for n in nets:
            r = kdb.Region()
            for y in range(H):
                for x in range(W):
                    qs = [q for q in range(4) if L[4 * (y * W + x) + q] == n]
                    if len(qs) == 4:
                        r.insert(kdb.Box(xs[x], ys[y], xs[x + 1], ys[y + 1]))
                    else:
                        for q in qs:
                            r.insert(piece_poly(x, y, q, xs, ys))
            r.merge()
            for p in r.each():
                out.append((k, netname(n), p))
    return out
