"""C02 sidewall and C03 fringe capacitance on rectilinear layouts"""
import math
import os
import random
import sys
import klayout.db as kdb
from vlib import quiet_log, NPROC
import geo_gen as G
from c_overlap import NETS, LAYERSETS, grid

UNIT_SW = 1     # dbu, of the coordinates of sidewall records
UNIT_FR = 100   # dbu, of those of fringe records (mostly)


def cells_of(L, W, H):
    return [L[4 * c] for c in range(W * H)]


def poly_ids(cells, W, H, first):
    ids = [0] * (W * H)
    nxt = first
    for c in range(W * H):
        if cells[c] and not ids[c]:
            st = [c]
            ids[c] = nxt
            while st:
                p = st.pop()
                x, y = p % W, p // W
                for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    if 0 <= x + dx < W and 0 <= y + dy < H:
                        q = (y + dy) * W + x + dx
                        if cells[q] == cells[c] and not ids[q]:
                            ids[q] = nxt
                            st.append(q)
            nxt += 1
    return ids, nxt


def profile(alpha_cap, d_um):
    alpha_c = alpha_cap * 0.02 * 0.01 * 0.5 * 200.0
    return 2.0 / math.pi * math.atan(alpha_c * d_um)


def job(spec):
    import rcx
    quiet_log()
    layers, W, H, kind = spec['layers'], spec['W'], spec['H'], spec['kind']
    n = len(layers)
    C = rcx.CANON
    dbu, U = spec['dbu'], spec['U']
    xs, ys = spec['xs'], spec['ys']                       # units of U dbu
    lay = [cells_of(L, W, H) for L in spec['lay']]
    polys = G.to_polygons(spec['lay'], W, H, [v * U for v in xs], [v * U for v in ys], lambda k: NETS[k])
    random.Random(spec['rs']).shuffle(polys)
    idx = {c: C.index(c) for c in layers}
    shapes = [(idx[layers[k]], nn, p) for k, nn, p in polys]
    r = random.Random(spec['rs'] + 1)
    halo = spec['halo']                                   # units
    rec = dict(W=W, H=H, lay=lay, xs=xs, ys=ys, halo=halo, obs=[], unknown=0, crash=False)
    ids, nx = [], 1
    for L in lay:
        i, nx = poly_ids(L, W, H, nx)
        ids.append(i)
    rec['poly'] = ids
    halo_um = halo * U * dbu
    if spec['shipped']:
        t = rcx.shipped_tech()
        t.process_parasitics.side_halo = halo_um
        cap = t.process_parasitics.capacitance
        sub = {s.layer_name: s.area_capacitance for s in cap.substrates}
        per = {s.layer_name: s.perimeter_capacitance for s in cap.substrates}
        ov = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in cap.overlaps}
        so = {(o.in_layer_name, o.out_layer_name): o.capacitance for o in cap.sideoverlaps}
        sw = {s.layer_name: (s.capacitance, s.offset) for s in cap.sidewalls}
    else:
        sub = {c: float(r.randint(5, 400)) for c in C}
        per = {c: float(r.randint(2000, 5000)) for c in C}
        ov = {(a, b): float(r.randint(5, 400)) for i, a in enumerate(C) for b in C[:i]}
        so = {(a, b): float(r.randint(2000, 5000)) for a in C for b in C if a != b}
        sw = {c: (float(r.randint(100, 1000)), r.randint(0, 600) * dbu) for c in C}
        if r.random() < 0.3:                               # tables without rows for some layers
            for tb in (sub, ov, so, sw):
                for a in [q for q in tb if r.random() < 0.2]:
                    del tb[a]
        if r.random() < 0.3:                               # rows with zeros
            for tb in (sub, per, ov, so):
                for a in [q for q in tb if r.random() < 0.1]:
                    tb[a] = 0.0
        t = rcx.custom_tech(halo_um, sub, per, ov, sw, so)
        sw = {c: sw.get(c, (0.0, 0.0)) for c in C}
    if kind == 'sw':
        q = 10 if spec['shipped'] else 1
        rec['S'] = 10
        rec['cap'] = [int(round(sw[c][0] * q)) for c in layers]
        rec['off'] = [int(round(sw[c][1] / (U * dbu))) for c in layers]
        vscale = 1000.0 * rec['S'] * q
        assert all(abs(sw[c][0] * q - round(sw[c][0] * q)) < 1e-3 for c in layers)
        assert all(abs(sw[c][1] / (U * dbu) - round(sw[c][1] / (U * dbu))) < 1e-3 for c in layers)
    else:
        q = 1000.0           # milli aF per unit of length
        ul = U * dbu
        Gt, slack = [], []
        for k, c in enumerate(layers):
            row, srow = [], []
            for j in range(n + 1):
                if j == k + 1:
                    row.append([0] * (halo + 1))
                    srow.append(0)
                    continue
                if j == 0:
                    oc, sc = sub.get(c, 0), per[c]
                else:
                    o = layers[j - 1]
                    oc = ov.get((c, o), ov.get((o, c), 0))
                    sc = so.get((c, o), 0)
                if not oc or not sc:                           # nothing specified
                    row.append([0] * (halo + 1))
                    srow.append(0)
                    continue
                div = 1.0
                if spec['scale']:
                    div = profile(oc, halo_um) or 1.0
                row.append([int(round(sc * ul * q * profile(oc, d * ul) / div)) for d in range(halo + 1)])
                srow.append(int(math.ceil(sc * ul * q * (profile(oc, halo_um + 2.01 * dbu) - profile(oc, halo_um)) / div)))
            Gt.append(row)
            slack.append(srow)
        rec['G'], rec['slack'] = Gt, slack
        rec['thr'] = int(0.0001 * 1000 * q) + 1
        vscale = 1000.0 * q
    li = {c: k + 1 for k, c in enumerate(layers)}
    li['VSUBS'] = 0
    ni = {c: k for k, c in enumerate(NETS) if c}
    ni['VSUBS'] = 0
    try:
        with rcx.Silence():
            l2n = rcx.build_l2n(shapes, dbu=dbu)
            res, _, _ = rcx.extract(l2n, t, spec['scratch'], scale=spec['scale'], debug=spec['rs'] % 4 == 0)
        cell = list(res.cell_extraction_results.values())[0]
        acc = {}
        if kind == 'sw':
            for k, es in cell.sidewall_table.items():
                if k.layer not in li or k.net1 not in ni or k.net2 not in ni or k.layer == 'VSUBS':
                    rec['unknown'] += 1
                    continue
                kk = (li[k.layer], ni[k.net1], ni[k.net2])
                acc[kk] = acc.get(kk, 0.0) + sum(e.cap_value for e in es)
            for (k, a, b), v in acc.items():
                rec['obs'].append(dict(k=k, a=a, b=b, v=int(round(max(-2e9, min(v * vscale, 2e9))))))
        else:
            for k, es in cell.sideoverlap_table.items():
                if k.layer_inside not in li or k.layer_outside not in li or k.net_inside not in ni \
                        or k.net_outside not in ni or k.layer_inside == 'VSUBS':
                    rec['unknown'] += 1
                    continue
                kk = (li[k.layer_inside], ni[k.net_inside], li[k.layer_outside], ni[k.net_outside])
                acc[kk] = acc.get(kk, 0.0) + sum(e.cap_value for e in es)
            for (k, a, j, b), v in acc.items():
                rec['obs'].append(dict(k=k, a=a, j=j, b=b, v=int(round(max(-2e9, min(v * vscale, 2e9))))))
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    return rec


def mk(c, rng, kind, layers, W, H, lay, xs, ys, halo, shipped, scale):
    dbu = 0.001 if shipped else rng.choice([0.001, 0.001, 0.001, 0.005, 0.0005])
    U = UNIT_SW if kind == 'sw' else rng.choice([UNIT_FR, UNIT_FR, UNIT_FR, 20, 10])
    return dict(dbu=dbu, U=U, layers=layers, W=W, H=H, lay=lay, xs=xs, ys=ys, halo=halo, shipped=shipped, scale=scale, kind=kind,
                scratch=c.scratch, rs=rng.randrange(10 ** 9))


def strips(c, rng, kind):
    """the specification's strips, laid out: an edge of net 1 on layer K and every arrangement beside it"""
    out = []
    layers = ['met1', 'met2', 'met3']
    K = 1
    import itertools
    n, D = 3, 2
    allv = list(itertools.product(range(3), repeat=n * D))
    rng.shuffle(allv)
    pick = allv[:c.n(120, 729)]
    for v in pick:
        W, H = 2 * D + 2, 1
        lay = G.empty(W, H, n)
        for q in range(4):
            lay[K][q] = 1
        ok = True
        for k in range(n):
            for d in range(D):
                net = v[k * D + d]
                x = 2 + 2 * d if k == K else 1 + 2 * d
                if net:
                    if not G.put_cells(lay[k], W, H, {(x, 0): G.FULL, **({(x + 1, 0): G.FULL} if k != K else {})}, net, gap=1):
                        ok = False
        if ok:
            xs = [0]
            for _ in range(W):
                xs.append(xs[-1] + rng.choice([3, 5, 8]))
            m = 1 if kind == 'fr' else 100
            out.append(mk(c, rng, kind, layers, W, H, lay, [v * m for v in xs], [0, 10 * m], 21 * m, False, rng.random() < 0.5))
    return out


def gen(c, kind):
    rng = c.rng
    specs = strips(c, rng, kind)
    nr, big = c.n(260, 2500), c.n(6, 40)
    for i in range(nr + big):
        layers = rng.choice(LAYERSETS) if kind == 'fr' else rng.choice([['met1'], ['li1', 'met2'], ['poly', 'met5'], ['met3', 'met4'], LAYERSETS[5]])
        W, H = rng.randint(3, 9), rng.randint(2, 9)
        nsh = rng.randint(2, 12) if kind == 'fr' else rng.randint(3, 14) * (2 if len(layers) > 2 else 1)
        if i < nr:
            lay = G.rand_layout(rng, W, H, len(layers), rng.randint(1, 5), nsh)
        else:                                              # shapes with many edges
            layers = rng.sample(layers, min(2, len(layers)))
            layers.sort(key=LAYERSETS[5].index)
            W, H = rng.randint(14, 18), rng.randint(10, 14)
            lay = G.empty(W, H, len(layers))
            for L in lay:
                G.put_cells(L, W, H, G.comb(rng, W, H), 1)
                for _ in range(4):
                    G.put_cells(L, W, H, G.rand_shape(rng, W // 2, H, False), rng.randint(1, 3))
                G.drop_kissing(L, W, H)
        if not any(any(L) for L in lay):
            continue
        if kind == 'fr':
            xs, ys = [rng.randint(-30, 30)], [rng.randint(-30, 30)]
            for _ in range(W):
                xs.append(xs[-1] + rng.choice([1, 2, 3, 5, 8]))
            for _ in range(H):
                ys.append(ys[-1] + rng.choice([1, 2, 3, 5, 8]))
            halo = rng.choice([0, 5, 12, 20, 40, 80, 130, 210])
        else:
            xs, ys = [rng.randint(-300, 300)], [rng.randint(-300, 300)]
            m = rng.choice([10, 10, 1])                    # wide and narrow layouts
            steps = rng.choice([[10, 17, 33, 50], [4, 5, 10, 17]])
            for _ in range(W):
                xs.append(xs[-1] + rng.choice(steps))
            for _ in range(H):
                ys.append(ys[-1] + rng.choice(steps))
            xs, ys = [m * v for v in xs], [m * v for v in ys]
            halo = rng.choice([0, 400, 1000, 3000])
            if rng.random() < 0.4:                         # distances around the halo (halo + 1 dbu, the search distance, left out)
                g = rng.choice([xs, ys])
                halo = max(5, abs(rng.choice(g) - rng.choice(g)) + rng.choice([-2, 0, 0, 1]))
            while any(abs(a - b) == halo + 1 for g in (xs, ys) for a in g for b in g):
                halo += 1
        specs.append(mk(c, rng, kind, layers, W, H, lay, xs, ys, halo, rng.random() < 0.25, rng.random() < 0.5))
    return specs


def run(c, kind):
    invs = 'INVARIANTS FringeIsNearest AtMostTwo SidewallNearestOther NeverSelf NoFringeBehind\nCHECK_DEADLOCK FALSE\n'
    for nl, k, d, nn in c.n([(3, 2, 2, 2)], [(3, 2, 2, 2), (3, 1, 2, 2), (3, 3, 2, 2), (4, 2, 2, 1), (2, 1, 4, 2)]):
        c.model('Lateral', f'SPECIFICATION Spec\nCONSTANTS NLayers = {nl}\n K = {k}\n D = {d}\n NNets = {nn}\n' + invs)
    specs = gen(c, kind)
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=8)
    c.cov['layouts'] = len(recs)
    c.cov['entries_observed'] = sum(len(r['obs']) for r in recs)
    c.sample(dict(layers=specs[-1]['layers'], obs=recs[-1]['obs'], lay=recs[-1]['lay'], xs=recs[-1]['xs'], ys=recs[-1]['ys']))
    c.validate('SidewallTrace' if kind == 'sw' else 'FringeTrace', recs, what='layout',
               describe=lambda i, cl: f"layers {specs[i]['layers']} {specs[i]['W']}x{specs[i]['H']}: {cl} {recs[i].get('error', '')}")


def main_sidewall(c):
    run(c, 'sw')


def main_fringe(c):
    run(c, 'fr')
