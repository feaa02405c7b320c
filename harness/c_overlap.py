"""C01 overlap capacitance"""
import itertools
import os
import random
import sys
import klayout.db as kdb
from vlib import quiet_log, NPROC
import geo_gen as G

NETS = ['', 'VDD', 'vss', 'A', 'a', 'n1', 'Out', 'B[0]']
LAYERSETS = [['poly', 'li1', 'met1'], ['li1', 'met1', 'met2', 'met3'], ['met1', 'met2', 'met3', 'met4', 'met5'],
             ['poly', 'met1', 'met3', 'met5'], ['met2', 'met4'],
             ['poly', 'li1', 'met1', 'met2', 'met3', 'met4', 'met5']]


def primes(n):
    ps, k = [], 2
    while len(ps) < n:
        if all(k % p for p in ps):
            ps.append(k)
        k += 1
    return ps


def job(spec):
    """spec: dict(layers, W, H, lay, xs, ys, coef, unit, shipped)"""
    import rcx
    quiet_log()
    layers, W, H, lay = spec['layers'], spec['W'], spec['H'], spec['lay']
    n = len(layers)
    idx = {c: rcx.CANON.index(c) for c in layers}
    polys = G.to_polygons(lay, W, H, spec['xs'], spec['ys'], lambda k: NETS[k])
    rnd = random.Random(spec['rs'])
    if spec.get('split'):   # the same area drawn as many small pieces
        new = []
        for k, nn, p in polys:
            for q in kdb.Region(p).decompose_trapezoids_to_region().each():
                new.append((k, nn, q))
        polys = new
    rnd.shuffle(polys)
    shapes = [(idx[layers[k]], nn, p) for k, nn, p in polys]
    rec = dict(lay=lay, area=spec['area'], obs=[], unknown=0, crash=False, tol=spec['tol'])
    if spec['shipped']:
        t = rcx.shipped_tech()
        ti = rcx.TechInfo(t, None)
        cap = t.process_parasitics.capacitance
        sub = {s.layer_name: s.area_capacitance for s in cap.substrates}
        ov = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in cap.overlaps}
        coef = [[sub[layers[j]] if i == 0 else ov.get((layers[j], layers[i - 1]), 0) for j in range(n)]
                for i in range(n + 1)]
        scale = 100
        rec['coef'] = [[int(round(c * scale)) for c in row] for row in coef]
    else:
        coef, scale = spec['coef'], 1
        sub = {c: 999983.0 for c in rcx.CANON}
        ov = {(a, b): 999983.0 for i, a in enumerate(rcx.CANON) for b in rcx.CANON[:i]}
        for j in range(n):
            sub[layers[j]] = float(coef[0][j])
            for i in range(1, j + 1):
                ov[(layers[j], layers[i - 1])] = float(coef[i][j])
        if spec['rs'] < 0.3:                               # tables without rows for some layers (as for the plates of MiM capacitors)
            for a, b in [q for q in ov if rnd.random() < 0.25]:
                del ov[(a, b)]
            for a in [q for q in sub if rnd.random() < 0.25]:
                del sub[a]
            coef = [[coef[i][j] if (layers[j] in sub if i == 0 else (layers[j], layers[i - 1]) in ov) else 0 for j in range(n)] for i in range(n + 1)]
        t = rcx.custom_tech(3.0, sub, {c: 1.0 for c in rcx.CANON}, ov, {c: (1.0, 1.0) for c in rcx.CANON},
                            {(a, b): 1.0 for a in rcx.CANON for b in rcx.CANON if a != b})
        rec['coef'] = coef
    li = {c: k + 1 for k, c in enumerate(layers)}
    li['VSUBS'] = 0
    ni = {c: k for k, c in enumerate(NETS) if c}
    ni['VSUBS'] = 0
    try:
        with rcx.Silence():
            l2n = rcx.build_l2n(shapes, dbu=spec['dbu'])
            res, _, _ = rcx.extract(l2n, t, spec['scratch'])
        cell = list(res.cell_extraction_results.values())[0]
        acc = {}
        for k, entries in cell.overlap_table.items():
            for e in entries:
                if k.layer_bot not in li or k.layer_top not in li or k.net_bot not in ni or k.net_top not in ni \
                        or (k.layer_bot == 'VSUBS') != (k.net_bot == 'VSUBS'):
                    rec['unknown'] += 1
                    continue
                kk = (li[k.layer_bot], ni[k.net_bot], li[k.layer_top], ni[k.net_top])
                acc[kk] = acc.get(kk, 0.0) + e.cap_value
        unit_um2 = spec['unit'] * spec['dbu'] ** 2
        for (lb, nb, lt, nt), v in acc.items():
            rec['obs'].append(dict(lb=lb, nb=nb, lt=lt, nt=nt, v=int(round(min(v * 1000 * scale / unit_um2, 2e9)))))
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    return rec


def mk(rng, c, layers, W, H, lay, xs, ys, shipped=False, split=False, dbu=0.001):
    n = len(layers)
    # piece areas in dbu^2, by the smallest common unit
    area = []
    for y in range(H):
        for x in range(W):
            area += [(xs[x + 1] - xs[x]) * (ys[y + 1] - ys[y]) // 4] * 4
    import math
    unit = 0
    for a in area:
        unit = math.gcd(unit, a)
    area = [a // unit for a in area]
    k = n + n * (n - 1) // 2
    ps = primes(60)
    rng.shuffle(ps)
    it = iter(ps)
    coef = [[0] * n for _ in range(n + 1)]
    for j in range(n):
        for i in range(0, j + 1):
            coef[i][j] = next(it)
    tot = sum(area)
    assert tot * 400 * (100 if shipped else 1) < 2 ** 31, tot
    return dict(layers=layers, W=W, H=H, lay=lay, xs=xs, ys=ys, coef=coef, unit=unit, area=area, shipped=shipped,
                scratch=c.scratch, rs=rng.random(), split=split, dbu=dbu, tol=(tot // 2 + 2) if shipped else 1)


def grid(rng, n, step):
    xs = [rng.randrange(-20, 20) * step]
    for _ in range(n):
        xs.append(xs[-1] + step * rng.choice([1, 1, 2, 3]))
    return xs


def main(c):
    # the design: growing shields = directly facing conductors, in any visiting order
    inv = 'INVARIANTS ResultIsFacing NeverTwice AtMostOneAbove AtMostOneBelow SubstrateSeesLowest\nCHECK_DEADLOCK FALSE\n'
    for nl, nc, nn in c.n([(3, 2, 2), (4, 1, 2)], [(3, 2, 2), (4, 1, 3), (2, 3, 2), (5, 1, 2)]):
        c.model('Overlap', f'SPECIFICATION Spec\nCONSTANTS NLayers = {nl}\n Cols = {{{", ".join(map(str, range(nc)))}}}\n'
                           f' NNets = {nn}\n' + inv)
    rng = c.rng
    specs = []
    # every column of 4 layers and 2 nets (and sampled columns of 7 layers): all the states of the specification
    cols = list(itertools.product(range(3), repeat=4))
    per = 9
    for s in range(0, len(cols), per):
        part = cols[s:s + per]
        lay = G.empty(2 * per, 1, 4)
        for i, col in enumerate(part):
            for k, v in enumerate(col):
                if v:
                    for q in range(4):
                        lay[k][4 * (2 * i) + q] = v
        specs.append(mk(rng, c, LAYERSETS[(s // per) % 2 + 1][:4], 2 * per, 1, lay, [i * 200 for i in range(2 * per + 1)], [0, 200]))
    for _ in range(c.n(10, 60)):
        lay = G.empty(20, 1, 7)
        for i in range(10):
            for k in range(7):
                v = rng.choice([0, 0, 1, 2, 3])
                if v:
                    for q in range(4):
                        lay[k][4 * (2 * i) + q] = v
        specs.append(mk(rng, c, LAYERSETS[5], 20, 1, lay, [i * 200 for i in range(21)], [0, 200]))
    nr, big = c.n(260, 3000), c.n(8, 60)
    for i in range(nr + big):
        layers = rng.choice(LAYERSETS)
        W, H = rng.randint(2, 9), rng.randint(2, 9)
        if i >= nr:
            W, H = rng.randint(16, 26), rng.randint(14, 22)
        tri = rng.random() < 0.35
        lay = G.rand_layout(rng, W, H, len(layers), rng.randint(1, 6), rng.randint(2, 14), tri=tri)
        if i >= nr:                                        # polygons with hundreds of points
            lay = G.empty(W, H, len(layers))
            for L in lay:
                G.put_cells(L, W, H, G.comb(rng, W, H), rng.randint(1, 3))
                for _ in range(rng.randint(1, 8)):
                    G.put_cells(L, W, H, G.rand_shape(rng, W, H, tri), rng.randint(1, 6))
            if not tri:
                for L in lay:
                    G.drop_kissing(L, W, H)
        if not any(any(L) for L in lay):
            continue
        if tri:
            st = 20
            x0, y0 = rng.randrange(-50, 50) * 2, rng.randrange(-50, 50) * 2
            p = rng.choice([200, 340, 1000])
            xs, ys = [x0 + k * p for k in range(W + 1)], [y0 + k * p for k in range(H + 1)]
        else:
            st = rng.choice([20, 50, 170, 1000])
            xs, ys = grid(rng, W, st), grid(rng, H, st)
        specs.append(mk(rng, c, layers, W, H, lay, xs, ys, shipped=rng.random() < 0.25, split=rng.random() < 0.3,
                        dbu=rng.choice([0.001, 0.001, 0.005])))
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=8)
    c.cov['layouts'] = len(recs)
    c.cov['couplings_observed'] = sum(len(r['obs']) for r in recs)
    c.sample(dict(layers=specs[-1]['layers'], record=recs[-1]))
    c.validate('OverlapTrace', recs, what='layout',
               describe=lambda i, cl: f"layers {specs[i]['layers']} {specs[i]['W']}x{specs[i]['H']}: {cl} {recs[i].get('error', '')}")

