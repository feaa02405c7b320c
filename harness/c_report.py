"""C21 report of the 2.5D capacitance extraction"""
import math
import os
import random
import re
import klayout.db as kdb
import klayout.rdb as rdb
from vlib import quiet_log
import geo_gen as G
from c_overlap import LAYERSETS
from c_lateral import poly_ids, cells_of, profile

NETS = ['', 'VDD', 'vss', 'A', 'a', 'A,b', "n'1", 'Out.x', 'B[0]', 'q"r']


def to_int(um):
    v = um * 1000.0
    if abs(v - round(v)) > 1e-4:
        raise ValueError(um)
    return int(round(v))


def rects(polys):
    """disjoint rectangles of rectilinear polygons (µm)"""
    r = kdb.Region()
    for p in polys:
        q = kdb.Polygon([kdb.Point(to_int(t.x), to_int(t.y)) for t in p.each_point_hull()])
        for h in range(p.holes()):
            q.insert_hole([kdb.Point(to_int(t.x), to_int(t.y)) for t in p.each_point_hole(h)])
        r.insert(q)
    out = []
    for t in r.merged().decompose_trapezoids_to_region().each():
        b = t.bbox()
        if not t.is_box():
            raise ValueError('not rectilinear')
        out.append(dict(x1=b.left, y1=b.bottom, x2=b.right, y2=b.top))
    return out


def num(rx, s):
    m = re.fullmatch(rx, s)
    if not m:
        raise ValueError(s)
    return m.groups()


def after(prefix, s):
    if not s.startswith(prefix):
        raise ValueError(s)
    return s[len(prefix):]


def af(text):
    return int(round(float(text) * 1000))


def read_report(path, li, ni, dbu, drawn):
    """-> items, number of entries that cannot be read, neighbourhoods of the edges (at the log level DEBUG)"""
    r = rdb.ReportDatabase('')
    r.load(path)
    groups, nbs, junk = {}, {}, 0
    for it in r.each_item():
        cat = r.category_by_id(it.category_id())
        names = []
        while cat is not None:
            names.insert(0, cat.name())
            cat = cat.parent()
        vs = []
        for v in it.each_value():
            if v.is_polygon():
                vs.append(v.polygon())
            elif v.is_box():
                vs.append(kdb.DPolygon(v.box()))
            elif v.is_edge():
                vs.append(v.edge())
        if names[0] == '[C] Edge Neighborhood Visitor':
            d = nbs.setdefault(tuple(names[:5]), dict(edges=[], kids=[], bad=False))
            if names[5] == 'Edge':
                d['edges'] += [dict(x1=to_int(e.x1), y1=to_int(e.y1), x2=to_int(e.x2), y2=to_int(e.y2)) for e in vs]
            else:
                try:
                    i, k = num(r'Child (\d+): (.*)', names[5])
                    d['kids'].append(dict(i=int(i), name=k, rects=rects(vs)))
                except (ValueError, AttributeError):
                    d['bad'] = True
        elif names[0] == '[C] Sidewall':
            groups.setdefault((tuple(names), ''), []).extend(vs)
        elif names[0] in ('[C] Overlap', '[C] Fringe / Side Overlap'):
            groups.setdefault((tuple(names[:-1]), names[-1]), []).extend(vs)
    items = {}
    for (names, what), vs in groups.items():
        d = items.setdefault(names, dict(edges=[], tops=[], bots=[], areas=[], outs=[], shields=[], d=0, len=0))
        try:
            edges = [v for v in vs if isinstance(v, kdb.DEdge)]
            polys = [v for v in vs if not isinstance(v, kdb.DEdge)]
            slot = {'': 'edges', 'Inside Edge': 'edges', 'Top Polygon': 'tops', 'Bottom Polygon': 'bots', 'Overlap Area': 'areas',
                    'Outside Polygon': 'outs', 'Lateral Shield': 'shields'}[what]
            if slot == 'edges':
                if polys:
                    raise ValueError(what)
                d['edges'] = [dict(x1=to_int(e.x1), y1=to_int(e.y1), x2=to_int(e.x2), y2=to_int(e.y2)) for e in edges]
            else:
                if edges:
                    raise ValueError(what)
                d[slot] = rects(polys)
        except (ValueError, KeyError):
            junk += 1
    out = []
    for names, d in items.items():
        try:
            if names[0] == '[C] Overlap':
                lt, lb = after('top_layer=', names[1]), after('bot_layer=', names[2])
                cand = [(a, b) for a in ni for b in ni if f'{a} – {b}' == names[3]]
                if len(cand) != 1:
                    raise ValueError(names[3])
                nt, nb = cand[0]
                no, v = num(r'#(\d+):? ([\d.e-]+) fF', names[4])
                key = ['o', li[lb], ni[nb], li[lt], ni[nt]]
            elif names[0] == '[C] Sidewall':
                k, a, b = after('layer=', names[1]), after('inside=', names[2]), after('outside=', names[3])
                no, ln, dist, v = num(r'#(\d+): len ([\d.e-]+) µm, distance ([\d.e-]+) µm, ([\d.e-]+) fF', names[4])
                d['len'], d['d'] = to_int(float(ln)), to_int(float(dist))
                key = ['s', li[k], ni[a], li[k], ni[b]]
            else:
                k, a, j, b = after('inside_layer=', names[1]), after('inside_net=', names[2]), after('outside_layer=', names[3]), after('outside_net=', names[4])
                no, v = num(r'#(\d+):? ([\d.e-]+) fF', names[5])
                key = ['f', li[k], ni[a], li[j], ni[b]]
            out.append(dict(d, key=key, no=int(no), v=af(v)))
        except (ValueError, KeyError, IndexError):
            junk += 1
    near = []
    for names, d in nbs.items():
        try:
            lo, hi = num(r'Edge Interval: [\[(]([\d.]+), ([\d.]+)[\])]', names[3])
            if len(d['edges']) != 1 or d['bad']:
                raise ValueError(names)
            kids = {}
            for x in d['kids']:
                i = x['i']
                if (drawn + ['None'])[i] != x['name']:
                    raise ValueError(x)
                kids.setdefault(li.get(x['name'], len(li)), []).extend(x['rects'])
            near.append(dict(k=li[after('inside_layer=', names[1])], a=ni[after('inside_net=', names[2])], lo=int(round(float(lo) * dbu)),
                             hi=int(round(float(hi) * dbu)), e=d['edges'][0], kids=[kids.get(i, []) for i in range(len(li) + 1)]))
        except (ValueError, KeyError, IndexError):
            junk += 1
    return out, junk, near


def job(spec):
    import rcx
    quiet_log()
    layers, W, H = spec['layers'], spec['W'], spec['H']
    n = len(layers)
    C = rcx.CANON
    U, dbu = spec['U'], spec['dbu']                        # nm per unit, nm per dbu
    xs, ys, halo = [v * U for v in spec['xs']], [v * U for v in spec['ys']], spec['halo']
    r = random.Random(spec['rs'])
    lay = [cells_of(L, W, H) for L in spec['lay']]
    polys = G.to_polygons(spec['lay'], W, H, [v // dbu for v in xs], [v // dbu for v in ys], lambda k: NETS[k])
    r.shuffle(polys)
    shapes = [(C.index(layers[k]), nn, p) for k, nn, p in polys]
    ids, nx = [], 1
    for L in lay:
        i, nx = poly_ids(L, W, H, nx)
        ids.append(i)
    halo_um = halo * U * 0.001
    rec = dict(W=W, H=H, lay=lay, poly=ids, xs=xs, ys=ys, halo=halo * U, U=U, A=1000000 // U ** 2, dbu=dbu, els=[], items=[], near=[], debug=False, junk=0, crash=False)
    if spec['shipped']:
        t = rcx.shipped_tech()
        t.process_parasitics.side_halo = halo_um
        cap = t.process_parasitics.capacitance
        sub = {s.layer_name: s.area_capacitance for s in cap.substrates}
        per = {s.layer_name: s.perimeter_capacitance for s in cap.substrates}
        ov = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in cap.overlaps}
        so = {(o.in_layer_name, o.out_layer_name): o.capacitance for o in cap.sideoverlaps}
        sw = {s.layer_name: (s.capacitance, s.offset) for s in cap.sidewalls}
        S, Q = 100, 10
    else:
        sub = {c: float(r.randint(5, 400)) for c in C}
        per = {c: float(r.randint(2000, 5000)) for c in C}
        ov = {(a, b): float(r.randint(5, 400)) for i, a in enumerate(C) for b in C[:i]}
        so = {(a, b): float(r.randint(2000, 5000)) for a in C for b in C if a != b}
        sw = {c: (float(r.randint(100, 1000)), r.randint(0, 600) / 1000.0) for c in C}
        t = rcx.custom_tech(halo_um, sub, per, ov, sw, so)
        S, Q = 1, 1
    rec.update(S=S, Q=Q, cap=[int(round(sw.get(c, (0, 0))[0] * Q)) for c in layers], off=[int(round(sw.get(c, (0, 0))[1] * 1000)) for c in layers])
    rec['coef'] = [[int(round(S * (sub.get(layers[j], 0) if i == 0 else ov.get((layers[j], layers[i - 1]), 0)))) for j in range(n)] for i in range(n + 1)]
    ul = U * 0.001
    Gt, slack = [], []
    for k, c in enumerate(layers):
        row, srow = [], []
        for j in range(n + 1):
            o = None if j == 0 else layers[j - 1]
            oc = sub.get(c, 0) if j == 0 else ov.get((c, o), ov.get((o, c), 0))
            sc = per.get(c, 0) if j == 0 else so.get((c, o), 0)
            if j == k + 1 or not oc or not sc:
                row.append([0] * (halo + 1))
                srow.append(0)
                continue
            div = profile(oc, halo_um) if spec['scale'] else 1.0
            row.append([int(round(sc * ul * 1000 * profile(oc, d * ul) / div)) for d in range(halo + 1)])
            srow.append(int(math.ceil(sc * ul * 1000 * (profile(oc, halo_um + 0.00201 * dbu) - profile(oc, halo_um)) / div)))
        Gt.append(row)
        slack.append(srow)
    rec['G'], rec['slack'] = Gt, slack
    li = {c: k + 1 for k, c in enumerate(layers)}
    li['VSUBS'] = 0
    ni = {c: k for k, c in enumerate(NETS) if c}
    ni['VSUBS'] = 0
    path = os.path.join(spec['scratch'], f'c21_{os.getpid()}.rdb.gz')
    try:
        with rcx.Silence():
            l2n = rcx.build_l2n(shapes, dbu=dbu / 1000.0)
            res, _, _ = rcx.extract(l2n, t, spec['scratch'], scale=spec['scale'], report=path, debug=spec['rs'] % 4 == 0)
            cell = list(res.cell_extraction_results.values())[0]
            rec['items'], rec['junk'], rec['near'] = read_report(path, li, ni, dbu, ['VSUBS'] + [x for k, x in enumerate(layers) if any(lay[k])])
            rec['debug'] = spec['rs'] % 4 == 0
        q = lambda e: int(round(round(e.cap_value, 3) * 1000))
        for k, es in cell.overlap_table.items():
            rec['els'] += [dict(key=['o', li[k.layer_bot], ni[k.net_bot], li[k.layer_top], ni[k.net_top]], v=q(e)) for e in es]
        for k, es in cell.sidewall_table.items():
            rec['els'] += [dict(key=['s', li[k.layer], ni[k.net1], li[k.layer], ni[k.net2]], v=q(e)) for e in es]
        for k, es in cell.sideoverlap_table.items():
            rec['els'] += [dict(key=['f', li[k.layer_inside], ni[k.net_inside], li[k.layer_outside], ni[k.net_outside]], v=q(e)) for e in es]
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    finally:
        if os.path.exists(path):
            os.remove(path)
    return rec


def gen(c):
    rng = c.rng
    specs = []
    while len(specs) < c.n(160, 1600):
        layers = rng.choice(LAYERSETS)
        W, H = rng.randint(2, 7), rng.randint(2, 7)
        lay = G.rand_layout(rng, W, H, len(layers), rng.randint(2, 6), rng.randint(2, 10))
        if rng.random() < 0.05:                           # stripes across stripes: more than nine elements between the same nets
            W, H = rng.choice([7, 9]), rng.choice([7, 9])
            a, b = rng.sample(range(1, 6), 2)
            lay = [[(0 if (q // 4 % W if k % 2 else q // 4 // W) % 2 else (b if k % 2 else a)) for q in range(4 * W * H)] for k in range(len(layers))]
        if not any(any(L) for L in lay):
            continue
        xs, ys = [rng.randint(-30, 30)], [rng.randint(-30, 30)]
        for _ in range(W):
            xs.append(xs[-1] + rng.choice([1, 2, 3, 5, 8]))
        for _ in range(H):
            ys.append(ys[-1] + rng.choice([1, 2, 3, 5, 8]))
        u = rng.choice([100, 25, 125])
        m = list(range(1, len(NETS)))                     # which name a net has
        rng.shuffle(m)
        lay = [[m[v - 1] if v else 0 for v in L] for L in lay]
        specs.append(dict(layers=layers, W=W, H=H, lay=lay, xs=xs, ys=ys, halo=rng.choice([5, 12, 20, 40, 80]), scratch=c.scratch,
                          U=u, dbu=rng.choice([1, 1, 5]),
                          rs=rng.randrange(10 ** 9), shipped=rng.random() < 0.4, scale=rng.random() < 0.5))
    return specs


# ------------------------------------------------------------------------------------------- resistances
def box_of(v):
    b = v.bbox()
    return [to_int(b.left), to_int(b.bottom), to_int(b.right), to_int(b.top)]


def ohms(num_, unit):
    f = float(num_) * (0.001 if unit == 'mΩ' else 1.0)
    return res_value(f)


def res_value(f):
    return dict(m=int(min(round(f * 1000), 2e9)) if f >= 0.00099999 else 0, n=int(min(round(f * 1e9), 2e6)))


def read_r_report(path):
    r = rdb.ReportDatabase('')
    r.load(path)
    out = dict(snodes=[], sels=[], spins=[], sterms=[], sregs=[], junk=0)
    for it in r.each_item():
        cat = r.category_by_id(it.category_id())
        names = []
        while cat is not None:
            names.insert(0, cat.name())
            cat = cat.parent()
        shapes = [v.polygon() if v.is_polygon() else v.box() for v in it.each_value() if v.is_polygon() or v.is_box()]
        try:
            if names[0] not in ('[R] Extraction Request', '[R] Extraction Result'):
                continue
            if len(shapes) != 1:
                raise ValueError(names)
            b = box_of(shapes[0])
            if names[0] == '[R] Extraction Result':
                net = after('Net ', names[2])
                if names[3] == 'Nodes':
                    name, pnet, layer = num(r'(.*), port net (.*), layer (.*)', names[4])
                    out['snodes'].append(dict(net=net, name=name, pnet=pnet, layer=layer, box=b))
                else:
                    a, la, bb, lb, v, u = num(r'(.*) \((.*)\) ↔\ufe0e? (.*) \((.*)\): ([\d.e+-]+) (m?Ω)', names[4])
                    out['sels'].append(dict(ohms(v, u), net=net, a=a, la=la, b=bb, lb=lb, box=b))
            elif names[1] == 'Devices':
                t, net, layer = num(r'(.*): net (.*), layer (.*)', names[-1])
                out['sterms'].append(dict(where='', net=net, layer=layer, box=b))
            elif names[1] == 'Pins':
                label, net, layer = num(r'(.*) \(net (.*) on layer (.*)\)', names[2])
                out['spins'].append(dict(where='', label=label, net=net, layer=layer, box=b))
            elif names[1] == 'Network Extraction Request':
                w = after('Net ', names[2])
                if names[3] == 'Pins':
                    label, net, layer = num(r'(.*) \(net (.*) on layer (.*)\)', names[4])
                    out['spins'].append(dict(where=w, label=label, net=net, layer=layer, box=b))
                elif names[3] == 'Device Terminals':
                    t, net, layer = num(r'(.*): net (.*), layer (.*)', names[4])
                    out['sterms'].append(dict(where=w, net=net, layer=layer, box=b))
                elif names[3] == 'Layer Regions':
                    out['sregs'].append(dict(net=w, layer=after('Layer ', names[4]), box=b))
                else:
                    raise ValueError(names[3])
        except (ValueError, IndexError):
            out['junk'] += 1
    return out


def rjob(spec):
    import rcx
    import c_rext
    import klayout_pex_protobuf.kpex.layout.location_pb2 as loc
    quiet_log()
    pdk, lay = spec['pdk'], spec['lay']
    D = c_rext.PDK[pdk]
    name = lambda k: D['diff'][k][2] if k <= 0 else D['metals'][k - 1][1]
    V = c_rext.U
    B = lambda q: [q['x1'] * V, q['y1'] * V, q['x2'] * V, q['y2'] * V]
    rec = dict(wires=[dict(w, layer=name(w['k']), box=B(w)) for w in lay['wires']], vias=lay['vias'], nets=[], crash=False,
               pins=[dict(label=p['label'], layer=name(p['k']), x=p['x'] * V, y=p['y'] * V) for p in lay['pins']],
               terms=[dict(layer=name(t['k']), box=B(t)) for t in lay['terms']])
    path = os.path.join(spec['scratch'], f'c21r_{os.getpid()}.rdb.gz')
    try:
        with rcx.Silence():
            l2n = c_rext.build(pdk, lay)
            t = c_rext.tables(random.Random(spec['rs']), pdk, spec['shipped'])
            if spec['tiny']:
                for x in list(t.process_parasitics.resistance.layers) + list(t.process_parasitics.resistance.vias):
                    x.resistance *= spec['tiny']
            res, _, _ = rcx.extract(l2n, t, spec['scratch'], mode=rcx.PEXMode.R, report=path)
            rec.update(read_r_report(path))
        for n in list(res.cell_extraction_results.values())[0].r_extraction_result.networks:
            ns, pos = [], {}
            for x in n.nodes:
                pos[x.node_id] = len(ns) + 1
                if x.location.kind == loc.Location.Kind.LOCATION_KIND_POINT:
                    p = x.location.point
                    b = [p.x - 5, p.y - 5, p.x + 5, p.y + 5]
                else:
                    q = x.location.box
                    b = [q.lower_left.x, q.lower_left.y, q.upper_right.x, q.upper_right.y]
                ns.append(dict(name=x.node_name, pnet=x.net_name, layer=x.layer_name, box=b))
            rec['nets'].append(dict(net=n.net_name, nodes=ns, els=[dict(res_value(e.resistance), a=pos[e.node_a.node_id], b=pos[e.node_b.node_id])
                                                                   for e in n.elements]))
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
        rec.update(snodes=[], sels=[], spins=[], sterms=[], sregs=[], junk=0)
    finally:
        if os.path.exists(path):
            os.remove(path)
    return rec


def main_r(c):
    import c_rext
    rng = c.rng
    specs = []
    while len(specs) < c.n(120, 1200):
        pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
        lay = c_rext.generate(rng, pdk, rng.choice([0.5, 0.8]), rng.choice([0, 0, 1, 2]), rng.choice([0.5, 0.9, 1.0]))
        if not lay['wires'] or not c_rext.clean(lay):
            continue
        specs.append(dict(pdk=pdk, lay=lay, scratch=c.scratch, rs=rng.random(), shipped=rng.random() < 0.4, tiny=rng.choice([0, 0, 1e-4, 1e-6, 1e3])))
    with c.pool() as pool:
        recs = pool.map(rjob, specs, chunksize=4)
    c.cov['wire_layouts'] = len(recs)
    c.cov['node_markers'] = sum(len(r['snodes']) for r in recs)
    c.cov['element_markers'] = sum(len(r['sels']) for r in recs)
    c.validate('RReportTrace', recs, what='layout', describe=lambda i, cl: f"{specs[i]['pdk']} wires: {cl} {recs[i].get('error', '')}")


def main(c):
    for nk, nv, m in c.n([(2, 2, 4)], [(2, 2, 5), (3, 1, 6), (3, 2, 4)]):
        c.model('ReportModel', f'SPECIFICATION Spec\nCONSTANTS Keys = {{{", ".join(f"k{i}" for i in range(nk))}}}\n Vals = {{{", ".join(str(i) for i in range(nv))}}}\n'
                               f' MaxEls = {m}\n' + ''.join(f' k{i} = k{i}\n' for i in range(nk)) +
                'INVARIANTS Shown Numbers NothingElse\nPROPERTIES Stable Live\nCHECK_DEADLOCK FALSE\n')
    specs = gen(c)
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=4)
    c.cov['layouts'] = len(recs)
    for t, s in (('o', 'overlap'), ('s', 'sidewall'), ('f', 'fringe')):
        c.cov[f'{s}_markers'] = sum(1 for r in recs for i in r['items'] if i['key'][0] == t)
    c.sample(dict(layers=specs[-1]['layers'], items=recs[-1]['items'][:6]))
    c.validate('ReportTrace', recs, what='layout',
               describe=lambda i, cl: f"layers {specs[i]['layers']} {specs[i]['W']}x{specs[i]['H']}: {cl} {recs[i].get('error', '')}")
    main_r(c)
