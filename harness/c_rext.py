"""C04 resistance extraction"""
import multiprocessing as mp
import os
import klayout.db as kdb
from vlib import quiet_log, NPROC

# k: -1 p diffusion, 0 n diffusion, 1 poly, 2.. metals
PDK = {
    'sky130A': dict(
        metals=[('poly_con', 'poly', (66, 20)), ('li_con', 'li1', (67, 20)), ('met1_con', 'met1', (68, 20)),
                ('met2_con', 'met2', (69, 20)), ('met3_ncap', 'met3', (70, 20)), ('met4_ncap', 'met4', (71, 20)),
                ('met5_con', 'met5', (72, 20))],
        vias=[('licon_poly_con', (66, 4403)), ('mcon_con', (67, 44)), ('via1_con', (68, 44)), ('via2_con', (69, 44)),
              ('via3_ncap', (70, 144)), ('via4_ncap', (71, 144))],
        pins=[('poly_pin_con', (66, 16)), ('li_pin_con', (67, 16)), ('met1_pin_con', (68, 16)),
              ('met2_pin_con', (69, 16)), ('met3_pin_con', (70, 16)), ('met4_pin_con', (71, 16)),
              ('met5_pin_con', (72, 16))],
        labels=[('poly_label', (66, 5)), ('li_label', (67, 5)), ('met1_label', (68, 5)), ('met2_label', (69, 5)),
                ('met3_label', (70, 5)), ('met4_label', (71, 5)), ('met5_label', (72, 5))],
        diff={0: ('nsd', 'licon_nsd_con', 'nsdm', 'sky130_fd_pr__nfet_01v8'), -1: ('psd', 'licon_psd_con', 'psdm', 'sky130_fd_pr__pfet_01v8')}),
    'ihp_sg13g2': dict(
        metals=[('poly_con', 'GatPoly', (5, 0)), ('metal1_con', 'Metal1', (8, 0)), ('metal2_con', 'Metal2', (10, 0)),
                ('metal3_con', 'Metal3', (30, 0)), ('metal4_con', 'Metal4', (50, 0)), ('metal5_n_cap', 'Metal5', (67, 0)),
                ('topmetal1_con', 'TopMetal1', (126, 0)), ('topmetal2_con', 'TopMetal2', (134, 0))],
        vias=[('cont_poly_con', (6, 4403)), ('via1_drw', (19, 0)), ('via2_drw', (29, 0)), ('via3_drw', (49, 0)),
              ('via4_drw', (66, 0)), ('topvia1_n_cap', (125, 0)), ('topvia2_drw', (133, 0))],
        pins=[('poly_pin_con', (5, 2)), ('metal1_pin_con', (8, 2)), ('metal2_pin_con', (10, 2)),
              ('metal3_pin_con', (30, 2)), ('metal4_pin_con', (50, 2)), ('metal5_pin_con', (67, 2)),
              ('topmetal1_pin_con', (126, 2)), ('topmetal2_pin_con', (134, 2))],
        labels=[('poly_text', (5, 25)), ('metal1_text', (8, 25)), ('metal2_text', (10, 25)), ('metal3_text', (30, 25)),
                ('metal4_text', (50, 25)), ('metal5_text', (67, 25)), ('topmetal1_text', (126, 25)),
                ('topmetal2_text', (134, 25))],
        diff={0: ('nsd_fet', 'cont_nsd_con', 'nSD', 'sg13_lv_nmos'), -1: ('psd_fet', 'cont_psd_con', 'pSD', 'sg13_lv_pmos')}),
}
U = 10    # layout unit (10 nm) in dbu, unless the layout says otherwise


class PortDevices(kdb.GenericDeviceExtractor):
    """devices with terminals of several shapes on the wires; one device per marker shape"""
    def __init__(self, devs, layers, U):
        super().__init__()
        self.U = U
        self.name = 'port_device'
        self.devs, self.layers = devs, layers

    def setup(self):
        self.define_layer('M', 'marker')
        self.index = {k: i + 1 for i, k in enumerate(self.layers)}
        for k in self.layers:
            self.define_layer(f'T{k}', 'terminals')
        dc = kdb.DeviceClass()
        dc.name = 'port_device'
        for n in 'AB':
            dc.add_terminal(kdb.DeviceTerminalDefinition(n, n))
        self.register_device_class(dc)

    def get_connectivity(self, layout, layers):
        con = kdb.Connectivity()
        con.connect(layers[0], layers[0])
        return con

    def extract_devices(self, geo):
        U = self.U
        for m in geo[0].each():
            dev = self.create_device()
            # KLayout presents equal clusters once, relative to their place: the width of the marker tells the device
            dv = self.devs[m.bbox().width() - 1]
            dx, dy = m.bbox().left - dv[0][0]['x1'] * U, m.bbox().bottom - dv[0][0]['y1'] * U
            for ti, pieces in enumerate(dv):
                for p in pieces:
                    self.define_terminal(dev, ti, self.index[p['k']],
                                         kdb.Polygon(kdb.Box(p['x1'] * U, p['y1'] * U, p['x2'] * U, p['y2'] * U).moved(dx, dy)))


def build(pdk, lay, cell='TOP', pin_boxes=True):
    """lay: dict(wires, vias, pins, mos) in units of U dbu. Returns a LayoutVsSchematic with an extracted netlist."""
    D = PDK[pdk]
    ly = kdb.Layout()
    U = lay.get('U', 10)
    ly.dbu = 0.01 / U
    top = ly.create_cell(cell)
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
    m = [ly.layer(*x[2]) for x in D['metals']]
    v = [ly.layer(*x[1]) for x in D['vias']]
    p = [ly.layer(*x[1]) for x in D['pins']]
    t = [ly.layer(*x[1]) for x in D['labels']]
    act = {0: ly.layer(9000, 0), -1: ly.layer(9003, 0)}
    lic, mrk = ly.layer(9001, 0), ly.layer(9002, 0)

    def box(s):
        return kdb.Box(s['x1'] * U, s['y1'] * U, s['x2'] * U, s['y2'] * U)
    for w in lay['wires']:
        if w['k'] > 0:
            top.shapes(m[w['k'] - 1]).insert(box(w))
    for s in lay['vias']:
        top.shapes(lic if s['k'] <= 0 else v[s['k'] - 1]).insert(box(s))
    for a in lay['mos']:
        top.shapes(act[a['k']]).insert(box(a))
    for q in lay['pins']:
        x, y, r = q['x'] * U, q['y'] * U, max(1, q['r'] * U // 10)
        top.shapes(p[q['k'] - 1]).insert(kdb.Box(x - r, y - r, x + r, y + r))
        top.shapes(t[q['k'] - 1]).insert(kdb.Text(q['label'], kdb.Trans(kdb.Vector(x, y))))
    M = [l2n.make_layer(m[i], D['metals'][i][0]) for i in range(len(m))]
    L = l2n.make_layer(lic, 'licon')
    bulk = l2n.make_layer('bulk')
    diff = []
    for k, (sdl, contl, _, fet) in D['diff'].items():
        t_ = 'n' if k == 0 else 'p'
        A = l2n.make_layer(act[k], f'{t_}active')
        gate = A & M[0]
        sd = A - gate
        cont = L & sd
        l2n.register(gate, f'{t_}gate')
        l2n.register(sd, sdl)
        l2n.register(cont, contl)
        diff.append((sd, cont))
        if any(a['k'] == k for a in lay['mos']):
            l2n.extract_devices(kdb.DeviceExtractorMOS4Transistor(fet),
                                {'SD': sd, 'G': gate, 'tS': sd, 'tD': sd, 'tG': M[0], 'W': bulk, 'tB': bulk})
    devs = lay.get('devs', [])
    if devs:
        for i, dv in enumerate(devs):
            q = dv[0][0]
            top.shapes(mrk).insert(kdb.Box(q['x1'] * U, q['y1'] * U, q['x1'] * U + i + 1, q['y1'] * U + 1))
        ks = sorted({q['k'] for dv in devs for tm in dv for q in tm})
        l2n.extract_devices(PortDevices(devs, ks, U), {'M': l2n.make_layer(mrk, 'marker'), **{f'T{k}': M[k - 1] for k in ks}})
    for i in range(len(m)):
        P = l2n.make_layer(p[i], D['pins'][i][0])
        T = l2n.make_text_layer(t[i], D['labels'][i][0])
        l2n.connect(M[i])
        l2n.connect(P)
        l2n.connect(M[i], P)
        l2n.connect(M[i], T)
    for i in range(len(v)):
        V = l2n.make_layer(v[i], D['vias'][i][0])
        l2n.connect(V)
        l2n.connect(V, M[i])
        l2n.connect(V, M[i + 1])
    for sd, cont in diff:
        l2n.connect(sd)
        l2n.connect(cont)
        l2n.connect(cont, sd)
        l2n.connect(cont, M[1])
    if lay['mos']:
        l2n.connect_global(bulk, 'VSUBS')
    l2n.extract_netlist()
    l2n.netlist().make_top_level_pins()
    if lay.get('dangling'):      # a device terminal without a net
        for dev in l2n.netlist().circuit_by_name(cell).each_device():
            if dev.device_class().name in [x[3] for x in D['diff'].values()]:
                dev.disconnect_terminal('B')
    l2n._keep_layout = ly
    return l2n


def generate(rng, pdk, nwire, nmos, named=0.8):
    D = PDK[pdk]
    nm = len(D['metals'])
    wires, vias, pins, terms, mos = [], [], [], [], []
    P = 40                       # slot pitch; positions (4j+c)*P
    k0 = rng.randrange(1, nm)
    k1 = min(nm, k0 + rng.randint(1, 4))
    J = rng.randint(2, 4)
    span = 4 * J * P
    # mesh
    for k in range(k0, k1 + 1):
        h = k % 2 == 0
        c = (k // 2) % 4
        for j in range(J):
            if rng.random() > nwire:
                continue
            tr = (4 * j + c) * P
            w = 2 * rng.randint(2, 30)
            cuts = [-2 * P, span + 2 * P]
            if rng.random() < 0.35:
                a = (4 * rng.randrange(J) + ((c + 2) % 4)) * P
                cuts = [-2 * P, a - 13, a + 13, span + 2 * P]
            for q in range(0, len(cuts), 2):
                lo, hi = cuts[q], cuts[q + 1]
                if rng.random() < 0.15 or hi - lo < 3 * w:
                    continue
                wires.append(dict(k=k, x1=lo, y1=tr - w // 2, x2=hi, y2=tr + w // 2, h=True) if h else
                             dict(k=k, x1=tr - w // 2, y1=lo, x2=tr + w // 2, y2=hi, h=False))
    n_mesh = len(wires)
    ports = [[] for _ in wires]  # occupied positions
    for i in range(n_mesh):
        for j in range(n_mesh):
            a, b = wires[i], wires[j]
            if b['k'] != a['k'] + 1 or rng.random() < 0.45:
                continue
            x1, x2 = max(a['x1'], b['x1']), min(a['x2'], b['x2'])
            y1, y2 = max(a['y1'], b['y1']), min(a['y2'], b['y2'])
            # the crossing must lie well inside of both wires
            hw, vw = (a, b) if a['h'] else (b, a)
            if not (hw['x1'] + 10 < vw['x1'] and vw['x2'] + 10 < hw['x2'] and vw['y1'] + 10 < hw['y1'] and hw['y2'] + 10 < vw['y2']):
                continue
            mn = 2 if 1 < a['k'] < 5 else 6
            sx = rng.randint(mn, max(mn, min(30, x2 - x1 - 2)))
            sy = rng.randint(mn, max(mn, min(30, y2 - y1 - 2)))
            if sx > x2 - x1 or sy > y2 - y1:
                continue
            px = rng.randint(x1, x2 - sx)
            py = rng.randint(y1, y2 - sy)
            vias.append(dict(k=a['k'], kt=b['k'], x1=px, y1=py, x2=px + sx, y2=py + sy))
    # transistors, in a column of their own
    for q in range(nmos):
        x0, y0 = span + 60 * P, q * 30 * P
        ww, ll = rng.randint(20, 90), 2 * rng.randint(6, 20)      # active height, gate length
        hh = rng.randint(60, 200)
        # gate: vertical poly wire
        wires.append(dict(k=1, x1=x0, y1=y0 - 60, x2=x0 + ll, y2=y0 + ww + hh, h=False))
        ex = rng.randint(40, 90)
        kd = rng.choice([0, -1])
        mos.append(dict(k=kd, x1=x0 - ex, y1=y0, x2=x0 + ll + ex, y2=y0 + ww))
        terms.append(dict(k=1, x1=x0, y1=y0, x2=x0 + ll, y2=y0 + ww))
        for s in (0, 1):
            d = dict(k=kd, x1=x0 + ll, y1=y0, x2=x0 + ll + ex, y2=y0 + ww) if s else dict(k=kd, x1=x0 - ex, y1=y0, x2=x0, y2=y0 + ww)
            wires.append(dict(d, h=True))
            terms.append(dict(d))
            lx = d['x1'] + (4 if s == 0 else ex - 18)
            lx = d['x1'] + rng.choice([3, ex - 17])
            vias.append(dict(k=kd, kt=2, x1=lx, y1=y0 + 3, x2=lx + rng.randint(8, 14), y2=y0 + 3 + rng.randint(4, 12)))
            lw = 2 * rng.randint(10, 14)
            c0 = lx + 7
            # first metal: vertical wire over the contact
            wires.append(dict(k=2, x1=c0 - lw // 2, y1=y0 - 20, x2=c0 + lw // 2, y2=y0 + ww + hh, h=False))
    # the nets, to name them
    adj = {i: set() for i in range(len(wires))}

    def inside(w, k, s):
        cx, cy = s['x1'] + s['x2'], s['y1'] + s['y2']
        return w['k'] == k and 2 * w['x1'] <= cx <= 2 * w['x2'] and 2 * w['y1'] <= cy <= 2 * w['y2']
    for v in vias:
        lo = [i for i, w in enumerate(wires) if inside(w, v['k'], v)]
        hi = [i for i, w in enumerate(wires) if inside(w, v['kt'], v)]
        for i in lo:
            for j in hi:
                adj[i].add(j)
                adj[j].add(i)
    comp, seen = [], set()
    for i in adj:
        if i in seen:
            continue
        todo, cur = [i], set()
        while todo:
            a = todo.pop()
            if a in cur:
                continue
            cur.add(a)
            todo += adj[a]
        seen |= cur
        comp.append(sorted(cur))
    # devices with terminals in pieces
    devs = []
    for q in range(rng.choice([0, 0, 1, 2, 3]) if comp else 0):
        dv = []
        for _ in range(2):
            cur = rng.choice(comp)
            tm = []
            for _ in range(8):
                if tm:
                    break
                w = wires[rng.choice(cur)]
                if w['k'] <= 0:
                    continue
                length, width = (w['x2'] - w['x1'], w['y2'] - w['y1']) if w['h'] else (w['y2'] - w['y1'], w['x2'] - w['x1'])
                if length < 60 or width < 4:
                    continue
                a = rng.randrange(10, length - 40)
                ln, wd = 2 * rng.randint(2, 10), 2 * rng.randint(1, width // 2)
                lo = width // 2 - wd // 2
                t = dict(k=w['k'], x1=w['x1'] + a, y1=w['y1'] + lo, x2=w['x1'] + a + ln, y2=w['y1'] + lo + wd) if w['h'] else \
                    dict(k=w['k'], x1=w['x1'] + lo, y1=w['y1'] + a, x2=w['x1'] + lo + wd, y2=w['y1'] + a + ln)
                ax = 'x' if w['h'] else 'y'
                if any((s['k'] == w['k'] or s.get('kt') == w['k']) and s['x1'] < w['x2'] and w['x1'] < s['x2'] and s['y1'] < w['y2'] and w['y1'] < s['y2']
                       and s[ax + '1'] - 5 <= t[ax + '2'] and t[ax + '1'] <= s[ax + '2'] + 5 for s in vias + terms):
                    continue
                # KLayout keeps the shapes of a terminal that touch one another
                m = t[ax + '1'] + ln // 2
                tm = [t] if rng.random() < 0.5 else [dict(t, **{ax + '2': m}), dict(t, **{ax + '1': m})]
                terms += tm
            dv.append(tm)
        if all(dv):
            devs.append(dv)
        else:
            for tm in dv:
                for t in tm:
                    terms.remove(t)
    pool = ['A', 'a', 'VDD', 'VSS', 'in[0]', 'in[1]', 'Out', 'out', 'n.1', 'Z<3>', 'clk_b', '1x', 'gnd!', 'B', 'b', 'C', 'D', 'E']
    rng.shuffle(pool)
    if rng.random() < 0.25:                                # written one after the other, with a dash between them, these are ambiguous
        dashed = rng.sample(['VSUBS-b', 'c', 'b-c', 'a-b', 'a', 'VSUBS-c'], 6)
        pool = dashed + [x for x in pool if x not in dashed]
    pool += [f'net{i}' for i in range(200)]
    for ci, cur in enumerate(comp):
        if rng.random() > named:
            continue
        label = pool[ci]
        npin = rng.randint(1, 4)
        for _ in range(npin):
            i = rng.choice(cur)
            w = wires[i]
            if w['k'] <= 0:
                continue
            length = (w['x2'] - w['x1']) if w['h'] else (w['y2'] - w['y1'])
            for _ in range(20):
                pos = rng.randrange(8, length - 8)
                x, y = (w['x1'] + pos, (w['y1'] + w['y2']) // 2) if w['h'] else ((w['x1'] + w['x2']) // 2, w['y1'] + pos)
                c = x if w['h'] else y
                clash = False
                for k in ('x', 'y'):
                    if (k == 'x') != w['h']:
                        continue
                    for s in vias + terms:
                        if (inside(w, s['k'], s) or ('kt' in s and inside(w, s['kt'], s))) and s[k + '1'] - 4 <= c <= s[k + '2'] + 4:
                            clash = True
                    for s in pins:
                        if s['k'] == w['k'] and abs(s[k] - c) < 6 and w['x1'] <= s['x'] <= w['x2'] and w['y1'] <= s['y'] <= w['y2']:
                            clash = True
                if not clash:
                    pins.append(dict(k=w['k'], x=x, y=y, label=label if rng.random() < 0.85 else label + '_2', r=rng.choice([5, 20, 40]) if min(w['x2'] - w['x1'], w['y2'] - w['y1']) > 9 else 5))
                    break
    return dict(wires=wires, vias=vias, pins=pins, terms=terms, mos=mos, devs=devs, dangling=rng.random() < 0.2)


def clean(lay):
    """drop layouts with ports that overlap along a wire"""
    for w in lay['wires']:
        ps = []
        pieces = [t for dv in lay['devs'] for tm in dv for t in tm]
        for s in lay['vias']:
            for k in ('k', 'kt'):
                if s[k] == w['k'] and w['x1'] <= s['x1'] and s['x2'] <= w['x2'] and w['y1'] <= s['y1'] and s['y2'] <= w['y2']:
                    ps.append((s['x1'], s['x2'], False) if w['h'] else (s['y1'], s['y2'], False))
        if w['k'] <= 0:
            continue
        for s in lay['terms']:
            if s['k'] == w['k'] and w['x1'] <= s['x1'] and s['x2'] <= w['x2'] and w['y1'] <= s['y1'] and s['y2'] <= w['y2']:
                ps.append((s['x1'], s['x2'], s in pieces) if w['h'] else (s['y1'], s['y2'], s in pieces))
        ps.sort()
        for a, b in zip(ps, ps[1:]):
            if b[0] < a[1] or b[0] == a[1] and not (a[2] and b[2]):
                return False
    return True


def tables(rng, pdk, shipped):
    """the technology and its resistances as integers (mOhm)"""
    import rcx
    t = rcx.shipped_tech(pdk)
    ri = t.process_parasitics.resistance
    if not shipped:
        for x in list(ri.layers) + list(ri.contacts) + list(ri.vias):
            x.resistance = rng.randint(1000, 9000)
    return t


def numbers(t, pdk, lay):
    import rcx
    D = PDK[pdk]
    ti = rcx.TechInfo(t, None)
    ri = t.process_parasitics.resistance
    sheet = {x.layer_name: int(round(x.resistance)) for x in ri.layers}
    cont = {x.device_layer_name: int(round(x.resistance)) for x in ri.contacts}
    via = {x.via_name: int(round(x.resistance)) for x in ri.vias}
    width = {}
    for lyr in t.process_stack.layers:
        for f in ('diffusion_layer', 'metal_layer'):
            if lyr.HasField(f):
                c = getattr(lyr, f).contact_above
                width[c.name] = int(round(c.width * 100))
    canon = {x.layer_info.name: x.original_layer_name for x in t.lvs_computed_layers}
    wires = [dict(w, rho=0 if w['k'] <= 0 else sheet[D['metals'][w['k'] - 1][1]]) for w in lay['wires']]
    vias = []
    for v in lay['vias']:
        if v['k'] <= 0:
            sd, name, canonical, _ = D['diff'][v['k']]
            r = cont[sd] if sd in cont else cont[canonical]
        elif v['k'] == 1:
            name = D['vias'][0][0]
            r = cont['poly_con'] if 'poly_con' in cont else cont['poly']
        else:
            name = D['vias'][v['k'] - 1][0]
            r = via[canon[name]]
        vias.append(dict(v, num=r * width[name] ** 2))
    return wires, vias


def observe(networks, pdk, U=10):
    D = PDK[pdk]
    kidx = {x[1]: i + 1 for i, x in enumerate(D['metals'])}
    kidx.update({x[2]: k for k, x in D['diff'].items()})
    nets = []
    import klayout_pex_protobuf.kpex.layout.location_pb2 as loc
    ids = {}
    for n in networks:
        ns = []
        for x in n.nodes:
            ids.setdefault((n.net_name, x.node_id), len(ids))
            d = dict(id=ids[(n.net_name, x.node_id)], k=kidx.get(x.layer_name, 99), net=x.net_name)
            if x.location.kind == loc.Location.Kind.LOCATION_KIND_POINT:
                p = x.location.point
                d.update(kind='pin', x1=p.x, y1=p.y, x2=p.x, y2=p.y)
            else:
                b = x.location.box
                d.update(kind='via', x1=b.lower_left.x, y1=b.lower_left.y, x2=b.upper_right.x, y2=b.upper_right.y)
            for c in ('x1', 'y1', 'x2', 'y2'):
                d[c] = d[c] // U if d[c] % U == 0 else 77777
            ns.append(d)
        es = [dict(a=ids.get((n.net_name, e.node_a.node_id), -1), b=ids.get((n.net_name, e.node_b.node_id), -1),
                   v=min(int(round(e.resistance * 1000)), 2 * 10 ** 9)) for e in n.elements]
        nets.append(dict(name=n.net_name, parts=n.net_name.split(','), auto=n.net_name.startswith('$'), nodes=ns, els=es))
    return nets


def job(spec):
    import rcx
    import random
    quiet_log()
    pdk, lay = spec['pdk'], spec['lay']
    t = tables(random.Random(spec['rs']), pdk, spec['shipped'])
    wires, vias = numbers(t, pdk, lay)
    rec = dict(wires=wires, vias=vias, pins=lay['pins'], terms=lay['terms'], nets=[], crash=False)
    try:
        with rcx.Silence():
            l2n = build(pdk, lay)
            res, _, _ = rcx.extract(l2n, t, spec['scratch'], mode=rcx.PEXMode.R if spec['rs'] < 0.7 else rcx.PEXMode.RC)
        rr = list(res.cell_extraction_results.values())[0].r_extraction_result
        rec['nets'] = observe(rr.networks, pdk, lay['U'])
        # device terminals are boxes as well: tell them apart by place
        tb = {(s['k'], s['x1'], s['y1'], s['x2'], s['y2']) for s in lay['terms']}
        for n in rec['nets']:
            for x in n['nodes']:
                if x['kind'] == 'via' and (x['k'], x['x1'], x['y1'], x['x2'], x['y2']) in tb:
                    x['kind'] = 'term'
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    return rec


def main(c):
    inv = 'INVARIANTS AsDeclared EndToEnd NetsAreNetworks Degree\nCHECK_DEADLOCK FALSE\n'
    for L, nw, mp_ in c.n([(4, 2, 5), (3, 3, 5)], [(5, 2, 7), (4, 3, 6), (3, 3, 7)]):
        c.model('ResNet', f'SPECIFICATION Spec\nCONSTANTS L = {L}\n NWires = {nw}\n MaxPorts = {mp_}\n' + inv)
    rng = c.rng
    specs = []
    while len(specs) < c.n(300, 3000):
        pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
        lay = generate(rng, pdk, rng.choice([0.5, 0.8, 1.0]), rng.choice([0, 0, 1, 2]), rng.choice([0.5, 0.9, 1.0]))
        if not lay['wires'] or not clean(lay):
            continue
        lay['U'] = rng.choice([10, 10, 10, 2, 20])          # dbu of 1, 5 and 0.5 nm
        specs.append(dict(pdk=pdk, lay=lay, scratch=c.scratch, rs=rng.random(), shipped=rng.random() < 0.3))
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=4)
    c.cov['layouts'] = len(recs)
    c.cov['networks_observed'] = sum(len(r['nets']) for r in recs)
    c.cov['resistors_observed'] = sum(len(n['els']) for r in recs for n in r['nets'])
    c.sample(min((r for r in recs if r['nets'] and any(n['els'] for n in r['nets'])), key=lambda r: len(str(r)), default=recs[0]))
    c.validate('ResTrace', recs, what='layout',
               describe=lambda i, cl: f"{specs[i]['pdk']} layout {i}: {cl} {recs[i].get('error', '')}")
