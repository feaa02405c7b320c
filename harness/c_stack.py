"""C16: the model for the field solver stacks up a layout as the process does."""
import json
import math
import os
import random
import shutil
import klayout.db as kdb
from vlib import quiet_log, NPROC, PB_DIR
from rcx import shipped_tech, Silence
from c_solid import read_lst

KINDS = dict(metal_layer='metal', sidewall_dielectric_layer='sidewall', conformal_dielectric_layer='conformal',
             simple_dielectric_layer='simple', diffusion_layer='diffusion', field_oxide_layer='fox', substrate_layer='subs')


def tenths(v, dbu):
    t = v / dbu * 10
    assert abs(t - round(t)) < 1e-3, (v, dbu)
    return round(t)


def stack_of(t, dbu):
    """the process stack in tenths of database units, as the specification takes it"""
    st = []
    T = lambda v: tenths(v, dbu)
    for e in t.process_stack.layers:
        w = e.WhichOneof('parameters')
        if w not in KINDS:
            continue
        p = getattr(e, w)
        r = dict(kind=KINDS[w], name=e.name)
        if w == 'metal_layer':
            has = p.HasField('contact_above')
            r.update(z=T(p.z), th=T(p.thickness), con=p.contact_above.name if has else '', cth=T(p.contact_above.thickness) if has else 0)
        elif w == 'sidewall_dielectric_layer':
            r.update(ref=p.reference, h=T(p.height_above_metal), w=T(p.width_outside_sidewall))
        elif w == 'conformal_dielectric_layer':
            r.update(ref=p.reference, over=T(p.thickness_over_metal), nometal=T(p.thickness_where_no_metal), w=T(p.thickness_sidewall))
        elif w == 'diffusion_layer':
            r.update(con=p.contact_above.name, cth=T(p.contact_above.thickness))
        elif w == 'substrate_layer':
            r.update(h=T(p.height), th=T(p.thickness))
        st.append(r)
    return st


def other_ks(t, rng):
    """dielectrics that can be told apart"""
    ks = {}
    for e in t.process_stack.layers:
        w = e.WhichOneof('parameters')
        p = getattr(e, w)
        if hasattr(p, 'dielectric_k'):
            p.dielectric_k = ks.setdefault(e.name, 2 + 0.125 * len(ks))


def width(rng, lo, hi, dbu):
    """in tenths of a unit; not one which binary fractions do not tell from a smaller one"""
    while True:
        t = rng.randint(lo, hi)
        v = t * dbu / 10
        if math.floor(v / dbu) == t // 10:
            return v


def other_stack(t, rng, dbu):
    """other heights, and other dielectrics around the metals"""
    old = [type(e)() for e in t.process_stack.layers]
    for o, e in zip(old, t.process_stack.layers):
        o.CopyFrom(e)
    del t.process_stack.layers[:]
    um = round(10 / dbu)
    z, last = rng.randint(um // 10, um // 2), None
    n = 0
    for e in old:
        w = e.WhichOneof('parameters')
        if w in ('sidewall_dielectric_layer', 'conformal_dielectric_layer'):
            continue
        if w == 'simple_dielectric_layer' and rng.random() < 0.1:
            continue
        a = t.process_stack.layers.add()
        a.CopyFrom(e)
        if w == 'substrate_layer':
            a.substrate_layer.height = rng.choice([0, rng.randint(1, um // 4)]) * dbu / 10
            a.substrate_layer.thickness = rng.randint(10, um // 2) * dbu / 10
        if w == 'diffusion_layer':
            a.diffusion_layer.contact_above.thickness = rng.randint(um // 20, um) * dbu / 10
        if w != 'metal_layer':
            continue
        m = a.metal_layer
        if last is not None and abs(e.metal_layer.z - last.metal_layer.z) < 1e-6:    # the same metal
            m.CopyFrom(e.metal_layer)
            m.z, m.thickness = lz * dbu / 10, lt * dbu / 10
        else:
            lz, lt = z, rng.randint(um // 20, um // 2)
            m.z, m.thickness = lz * dbu / 10, lt * dbu / 10
            z = lz + lt + rng.randint(um // 10, um)
        if m.HasField('contact_above'):
            m.contact_above.thickness = rng.choice([(z - lz - lt), rng.randint(um // 20, um)]) * dbu / 10
        last = e
        ref = e.name
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            d = t.process_stack.layers.add()
            n += 1
            d.name = f'x{n}'
            if rng.random() < 0.5:
                d.layer_type = d.LAYER_TYPE_SIDEWALL_DIELECTRIC if hasattr(d, 'LAYER_TYPE_SIDEWALL_DIELECTRIC') else t.process_stack.LAYER_TYPE_SIDEWALL_DIELECTRIC
                s = d.sidewall_dielectric_layer
                s.height_above_metal = rng.choice([0, rng.randint(1, um // 4) * dbu / 10])
                s.width_outside_sidewall = width(rng, 10, um // 4, dbu)
            else:
                d.layer_type = t.process_stack.LAYER_TYPE_CONFORMAL_DIELECTRIC
                s = d.conformal_dielectric_layer
                s.thickness_over_metal = rng.randint(10, um // 5) * dbu / 10
                s.thickness_where_no_metal = rng.choice([0, rng.randint(10, um // 5)]) * dbu / 10
                s.thickness_sidewall = rng.choice([0, width(rng, 10, um // 4, dbu)])
            s.dielectric_k = 1
            s.reference = ref
            ref = d.name


def layer_table(t):
    """stack name of a conductor -> (LVS name, GDS pair)"""
    comp = [(c.layer_info.name, (c.layer_info.drw_gds_pair.layer, c.layer_info.drw_gds_pair.datatype), c.original_layer_name) for c in t.lvs_computed_layers]
    draw = {l.name: (l.drw_gds_pair.layer, l.drw_gds_pair.datatype) for l in t.layers}
    tab = {}
    names = []
    for e in t.process_stack.layers:
        w = e.WhichOneof('parameters')
        if w in ('metal_layer', 'diffusion_layer'):
            names.append(e.name)
            p = getattr(e, w)
            if p.HasField('contact_above'):
                names.append(p.contact_above.name)
    for n in names:
        c = [x for x in comp if x[0] == n] or [x for x in comp if x[1] == draw.get(n)]
        if c:
            tab[n] = c[0]
    return tab


def gen_shapes(t, tab, rng, dbu):
    """boxes; layers that can be at the same place in different nets are kept in different halves"""
    sc = 0.001 / dbu
    zone = {}
    metals = [e for e in t.process_stack.layers if e.WhichOneof('parameters') == 'metal_layer']
    diffs = [e for e in t.process_stack.layers if e.WhichOneof('parameters') == 'diffusion_layer']
    first = metals[0].name
    zone[first] = zone[metals[0].metal_layer.contact_above.name] = 0
    for k, e in enumerate(diffs):
        zone[e.name] = zone[e.diffusion_layer.contact_above.name] = 1
    for e in metals:
        c = e.metal_layer.contact_above.name
        kind = 1 if e.name in ('capm', 'capm2', 'cmim_top') or e.name.endswith('_cap') and not e.name.endswith('_n_cap') else \
            0 if e.name.endswith('_ncap') or e.name.endswith('_n_cap') else None
        if kind is not None:
            zone[e.name] = kind
            if c:
                zone[c] = kind
    W = int(7000 * sc)
    X0 = int(W * rng.choice([0.3, 0.5, 0.5, 0.7]))

    def box(n, w, h):
        z = zone.get(n)
        lo, hi = (0, W) if z is None else (0, X0 - int(60 * sc)) if z == 0 else (X0 + int(60 * sc), W)
        if hi - lo < w:
            return None
        x, y = rng.randint(lo, hi - w), rng.randint(0, W - h)
        return [x, y, x + w, y + h]
    shapes = []
    used = rng.sample(list(tab), rng.randint(1, min(6, len(tab))))
    con_below = {}
    for e in metals + diffs:
        p = getattr(e, e.WhichOneof('parameters'))
        if p.HasField('contact_above'):
            con_below[p.contact_above.name] = (e.name, p.contact_above.metal_above)
    for n in used:
        for _ in range(rng.randint(1, 3)):
            if n in con_below:
                s = int(rng.choice([150, 170, 200]) * sc)
                b = box(n, s, s)
            else:
                b = box(n, int(rng.randint(200, 3000) * sc), int(rng.randint(200, 3000) * sc))
            if b is None:
                continue
            shapes.append((n, b))
            diff = n in con_below and con_below[n][0] in [e.name for e in diffs]      # without diffusion, it would touch the substrate
            if n in con_below and (diff or rng.random() < 0.8):    # metal around the contact
                m = int(rng.choice([0, 10, 60]) * sc)
                for k in (0, 1):
                    c = con_below[n][0] if k == 0 else rng.choice([x for x in tab if x not in con_below and canon(tab, x) == canon(tab, con_below[n][1])] or [None])
                    if c in tab and (diff and k == 0 or rng.random() < 0.9) and zone.get(c) in (None, zone.get(n)):
                        shapes.append((c, [b[0] - m, b[1] - m, b[2] + m, b[3] + m]))
    return shapes, con_below


def canon(tab, n):
    for k, (lvs, gds, can) in tab.items():
        if n in (k, lvs, can):
            return can
    return None


def build(t, tab, shapes, con_below, labels, dbu, cell):
    ly = kdb.Layout()
    ly.dbu = dbu
    top = ly.create_cell(cell)
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
    reg = {}
    names = sorted({n for n, _ in shapes})
    for n in names:
        lvs, gds, _ = tab[n]
        li = ly.layer(*gds)
        for m, b in shapes:
            if m == n:
                top.shapes(li).insert(kdb.Box(*b))
        reg[n] = l2n.make_layer(li, lvs)
        l2n.connect(reg[n])
        ti = ly.layer(gds[0], 9000 + names.index(n))
        for m, x, y, s in labels:
            if m == n:
                top.shapes(ti).insert(kdb.Text(s, kdb.Trans(kdb.Vector(x, y))))
        tx = l2n.make_text_layer(ti, f'{lvs}_txt')
        l2n.connect(reg[n], tx)
    for n in names:
        if n in con_below:
            lo, hi = con_below[n]
            for m in names:
                if m not in con_below and (m == lo or canon(tab, m) == canon(tab, hi)):
                    l2n.connect(reg[n], reg[m])
    l2n.join_net_names('*')
    l2n.extract_netlist()
    return ly, l2n, reg


def probe_points(shapes, bbox, dists, rng, n, h):
    pts = []
    for _ in range(n):
        q = rng.random()
        if q < 0.1 or not shapes:
            x, y = rng.randint(bbox[0] - h - 20, bbox[2] + h + 20), rng.randint(bbox[1] - h - 20, bbox[3] + h + 20)
        else:
            b = rng.choice(shapes)[1]
            k = rng.random()
            x, y = rng.randint(b[0], b[2] - 1), rng.randint(b[1], b[3] - 1)
            if k < 0.7:
                d = rng.choice(dists) + rng.choice([-1, 0, 0, 1, -8, 8])
                if rng.random() < 0.5:
                    x = rng.choice([b[0] - 1 - d, b[2] + d])
                if rng.random() < 0.5:
                    y = rng.choice([b[1] - 1 - d, b[3] + d])
        pts.append((x * 100 + 37, y * 100 + 61))
    return pts


def crossings(surf, pts, dbu, flaws):
    """horizontal faces above each point"""
    res = [[] for _ in pts]
    for net, ko, ki, tris in surf:
        out = f'k{ko:.6g}'
        inn = net if net is not None else f'k{ki:.6g}'
        for tr in tris:
            if not (tr[0][2] == tr[1][2] == tr[2][2]):
                continue
            p = [(v[0] / dbu * 100, v[1] / dbu * 100) for v in tr]
            x0, x1 = min(q[0] for q in p), max(q[0] for q in p)
            y0, y1 = min(q[1] for q in p), max(q[1] for q in p)
            ar = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])
            for k, (x, y) in enumerate(pts):
                if res[k] is None or not (x0 < x < x1 and y0 < y < y1):
                    continue
                s = [(p[(i + 1) % 3][0] - p[i][0]) * (y - p[i][1]) - (p[(i + 1) % 3][1] - p[i][1]) * (x - p[i][0]) for i in range(3)]
                if min(abs(v) for v in s) < 1e-6 * (1 + abs(ar)):
                    res[k] = None
                elif all(v > 0 for v in s) or all(v < 0 for v in s):
                    z = tr[0][2] / dbu
                    if abs(z - round(z)) > 1e-3:
                        flaws.append('height-off-grid')
                    lo, hi = (inn, out) if ar > 0 else (out, inn)
                    res[k].append(dict(z=round(z), lo=lo, hi=hi))
    return res


def job(s):
    quiet_log()
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    rng = random.Random(s['i'])
    d = s['dir']
    os.makedirs(d)
    t = shipped_tech(s['pdk'])
    dbu = 0.001
    if s['other']:
        dbu = rng.choice([0.001, 0.001, 0.005, 0.002])
        other_stack(t, rng, dbu)
    if not s['cli']:
        other_ks(t, rng)
    tab = layer_table(t)
    shapes, con_below = [], None
    while not shapes:
        shapes, con_below = gen_shapes(t, tab, rng, dbu)
    labels = []
    metals = [x for x in shapes if x[0] not in con_below]
    for n, b in rng.sample(metals, rng.randint(0, min(3, len(metals)))):
        labels.append((n, (b[0] + b[2]) // 2, (b[1] + b[3]) // 2, rng.choice(['A', 'B', 'clk', 'VSUBS', 'VSS', 'd[1]'])))
    ly, l2n, reg = build(t, tab, shapes, con_below, labels, dbu, 'TOP')
    st = stack_of(t, dbu)
    diel = list(dict.fromkeys(e['name'] for e in st if e['kind'] in ('sidewall', 'conformal', 'simple')))
    excl, pattern = [], rng.choice(['all', 'All ', 'all,all'])
    q = rng.random()
    if q < 0.3:
        excl = rng.sample(diel, rng.randint(1, min(3, len(diel))))
        parts = ['all'] + ['-' + x for x in excl]
        rng.shuffle(parts)
        pattern = rng.choice([',', ', ']).join(parts)
    elif q < 0.45:
        keep = rng.sample(diel, rng.randint(0, min(6, len(diel))))
        excl = [x for x in diel if x not in keep]
        parts = ['none'] + ['+' + x for x in keep]
        rng.shuffle(parts)
        pattern = rng.choice([',', ', ']).join(parts)
    k_void = rng.choice([1.0, 3.5, 1.75])
    netof = {}
    circuit = l2n.netlist().circuit_by_name('TOP')
    rec = dict(stack=st, um=round(10 / dbu), nets=[n.expanded_name() for n in circuit.each_net()], excl=excl, crash=False, flaws=[], probes=[],
               layers=sorted({e['name'] for e in st} | {e['con'] for e in st if e.get('con')}), shapes=[], pattern=pattern, pdk=s['pdk'], kn=[])
    for n, b in shapes:
        net = l2n.probe_net(reg[n], kdb.Point((b[0] + b[2]) // 2, (b[1] + b[3]) // 2))
        rec['shapes'].append(dict(layer=n, net=net.expanded_name(), x1=b[0], y1=b[1], x2=b[2], y2=b[3]))
    bb = kdb.Box()
    for n, b in shapes:
        bb += kdb.Box(*b)
    rec['bx'] = [bb.left, bb.bottom, bb.right, bb.top]
    kn = {'': k_void}
    for e in t.process_stack.layers:
        p = getattr(e, e.WhichOneof('parameters'))
        if hasattr(p, 'dielectric_k'):
            kn[e.name] = p.dielectric_k
    rec['kn'] = [dict(n=k, k=f'k{v:.6g}') for k, v in kn.items()]
    order = [x['net'] for x in rec['shapes']]
    try:
        if s['cli']:
            lst = run_cli(s, d, l2n, pattern, k_void, rng)
        else:
            tech = TechInfo(tech=t, dielectric_filter=MultipleChoicePattern(pattern=pattern))
            ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=tech, blackbox_devices=False)
            gen = FasterCapInputBuilder(pex_context=ctx, tech_info=tech, k_void=k_void, delaunay_amax=0, delaunay_b=0.5).build()
            lst = gen.write_fastcap(output_dir_path=d, prefix='F_')
        flaws = []
        surf, names = read_lst(lst, flaws)
        sub = next(e for e in st if e['kind'] == 'subs')
        dists = [0, round(1 / dbu)] + [w // 10 for w in (e.get('w', 0) for e in st) if w]
        chain = [w1 // 10 + w2 // 10 for w1 in (e.get('w', 0) for e in st) for w2 in (e.get('w', 0) for e in st) if w1 and w2]
        pts = probe_points([(x['layer'], [x[k] for k in ('x1', 'y1', 'x2', 'y2')]) for x in rec['shapes']], rec['bx'], dists + rng.sample(chain, min(4, len(chain))),
                           rng, s['probes'], round(8 / dbu))
        for p, cr in zip(pts, crossings(surf, pts, dbu, flaws)):
            if cr is not None:
                rec['probes'].append(dict(x=p[0], y=p[1], cross=cr))
        rec['flaws'] = sorted(set(flaws))
        if names.count('VSUBS') != 1:
            rec['flaws'].append('substrate-missing')
    except Exception as x:
        rec['crash'] = True
        rec['error'] = f'{type(x).__name__}: {x}'[:300]
    shutil.rmtree(d, ignore_errors=True)
    return rec


def run_cli(s, d, l2n, pattern, k_void, rng):
    from klayout_pex.kpex_cli import KpexCLI
    from c_engines import drop_handlers
    exe = os.path.join(d, 'fake')
    with open(exe, 'w') as f:
        f.write('#!/bin/bash\nexit 1\n')
    os.chmod(exe, 0o755)
    os.environ.update(KPEX_KLAYOUT_EXE='/bin/true', KPEX_FASTERCAP_EXE=exe)
    path = os.path.join(d, 'x.lvsdb.gz')
    l2n.write(path)
    out = os.path.join(d, 'out')
    try:
        with Silence():
            KpexCLI().main(['kpex', '--pdk', s['pdk'], '--lvsdb', path, '--cell', 'TOP', '--out_dir', out, '--fastercap', '--blackbox', 'n',
                            f'--diel={pattern}', '--k_void', str(k_void), '--delaunay_b', '0.5', '--log_level', 'error'])
    except BaseException:
        pass       # the solver has failed
    drop_handlers()
    for p, _, fs in os.walk(out):
        for f in fs:
            if f.endswith('.lst'):
                return os.path.join(p, f)
    raise FileNotFoundError('no list file')


def main(c):
    c.model('StackModel', f'SPECIFICATION Spec\nCONSTANTS MaxChain = {c.n(2, 3)}\nINVARIANTS Agrees Filled OverMetal\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng
    n = c.n(400, 12000)
    specs = [dict(i=rng.getrandbits(32), dir=os.path.join(c.scratch, f's{i}'), pdk=rng.choice(['sky130A', 'ihp_sg13g2']), other=i % 3 == 1, cli=i % 6 == 2,
                  probes=30) for i in range(n)]
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=2)
    lost = [r for r in recs if r['crash'] and ('Internal error' in r['error'] and 'Triangulation' in r['error'] or r['error'].endswith('in Region.delaunay'))]
    c.cov['given_up_by_klayout'] = len(lost)
    if len(lost) <= len(recs) // 20:
        recs = [r for r in recs if not any(r is x for x in lost)]
    c.cov['probes'] = sum(len(r['probes']) for r in recs)
    c.cov['faces'] = sum(len(p['cross']) for r in recs for p in r['probes'])
    c.sample({k: v for k, v in recs[0].items() if k != 'stack'})
    c.validate('StackTrace', recs, shards=NPROC, describe=lambda i, cl: f"layout {i}: {cl}: {recs[i].get('error', '')} {json.dumps({k: v for k, v in recs[i].items() if k not in ('stack', 'probes', 'kn', 'layers')})[:700]}")
