"""C19: the extraction context made from an LVS database: layers, nets, pins, devices, bounding box."""
import os
import random
import klayout.db as kdb
from vlib import quiet_log
from rcx import shipped_tech

U = 50          # dbu per unit of the specification (shapes sit at even coordinates, texts at odd ones)
# role -> (LVS layer, GDS pair of the original layer or None when derived)
SKY = dict(m1=('met1_con', (68, 20)), v1=('via1_con', (68, 44)), m2=('met2_con', (69, 20)), v2=('via2_con', (69, 44)),
           m3=('met3_ncap', None), c3=('met3_cap', None), vc=('via3_cap', None), cm=('capm', (89, 44)), v3=('via3_ncap', None), m4=('met4_ncap', None),
           p1=('met1_pin_con', (68, 16)), p3=('met3_pin_con', (70, 16)), g=('dnwell', (64, 18)), x=('weird', (200, 5)), y=('derived', None),
           t1=('met1_label', (68, 5)), t3=('met3_label', (70, 5)), a1=('met1_alt', (333, 1)), r1=('met1_res', (334, 1)))
IHP = dict(m1=('metal1_con', (8, 0)), v1=('via1_drw', (19, 0)), m2=('metal2_con', (10, 0)), v2=('via4_drw', (66, 0)),
           m3=('metal5_n_cap', None), c3=('metal5_cap', None), vc=('mim_via', None), cm=('cmim_top', (36, 0)), v3=('topvia1_n_cap', None), m4=('topmetal1_con', (126, 0)),
           p1=('metal1_pin_con', (8, 2)), p3=('metal5_pin_con', (67, 2)), g=('pwell', (46, 0)), x=('weird', (200, 5)), y=('pwell_sub', None),
           t1=('metal1_text', (8, 25)), t3=('metal5_text', (67, 25)), a1=('metal1_alt', (333, 1)), r1=('metal1_res', (334, 1)))
CONN = [('m1',), ('m2',), ('m3',), ('m4',), ('c3',), ('cm',), ('v1',), ('v2',), ('v3',), ('vc',), ('p1',), ('p3',), ('g',), ('x',), ('y',), ('a1',), ('r1',),
        ('m1', 'v1'), ('v1', 'm2'), ('m2', 'v2'), ('v2', 'm3'), ('v2', 'c3'), ('m3', 'c3'), ('m3', 'v3'), ('v3', 'm4'), ('cm', 'vc'), ('vc', 'm4'),
        ('m1', 'p1'), ('m3', 'p3'), ('c3', 'p3'), ('m1', 'a1'), ('m1', 'r1'), ('m2', 'x'), ('m4', 'y')]
LAB = dict(t1=['m1'], t3=['m3', 'c3'])
SHAPES = ['m1', 'm1', 'm1', 'v1', 'm2', 'm2', 'v2', 'm3', 'm3', 'v3', 'm4', 'p1', 'p1', 'p3', 'g', 'x', 'y', 'vc', 'a1', 'r1']


def technology(pdk, roles, rng):
    t = shipped_tech(pdk)
    from klayout_pex_protobuf.kpex.tech import tech_pb2
    m1 = next(q for q in t.lvs_computed_layers if q.layer_info.name == roles['m1'][0])
    a = t.lvs_computed_layers.add()
    a.CopyFrom(m1)
    a.layer_info.name = roles['a1'][0]
    if rng.random() < 0.3:
        a.layer_info.drw_gds_pair.datatype += 77
    r = t.lvs_computed_layers.add()
    r.CopyFrom(m1)
    r.layer_info.name = roles['r1'][0]
    r.layer_info.drw_gds_pair.datatype += 88
    r.kind = tech_pb2.ComputedLayerInfo.KIND_DEVICE_RESISTOR
    return t


def layout(rng, roles, ids):
    W = rng.choice([8, 12, 16])
    ncells = rng.choice([1, 2, 2, 3, 3, 4])
    use = [s for s in SHAPES if rng.random() < 0.8] or ['m1']
    cells = []
    for c in range(ncells):
        top = c == ncells - 1
        # NOTE: KLayout leaves out a placed cell none of whose nets go up; the substrate, which is global, always does
        boxes, texts, insts = [[ids['g'], 2 * rng.randrange(W // 2), 2 * rng.randrange(W // 2)]], [], []
        boxes[0] += [v + 2 * rng.randint(1, W // 2) for v in boxes[0][1:]]
        w = W * 2 if top else W
        for _ in range(rng.randint(1, 7 if top else 4)):
            k = rng.choice(use)
            if k[0] == 'v':
                x, y, a, b = 2 * rng.randrange(w // 2), 2 * rng.randrange(w // 2), 2, 2
            else:
                x, y = 2 * rng.randrange(w // 2), 2 * rng.randrange(w // 2)
                a, b = (2 * rng.randint(1, w // 3), rng.choice([2, 2, 4]))
                if rng.random() < 0.5:
                    a, b = b, a
            boxes.append([ids[k], x, y, x + a, y + b])
            # NOTE: nor does it connect a label of a placed cell with the metal of another
            if k in ('m1', 'm3', *(('p1', 'p3') if top else ())) and rng.random() < 0.6:
                tl = 't1' if k[1] == '1' else 't3'
                if k[0] == 'm' and rng.random() < 0.5:
                    boxes.append([ids['p' + k[1]], x, y, x + min(a, 4), y + min(b, 4)])
                # NOTE: equal labels in a placed cell are not told apart by KLayout itself
                texts.append([ids[tl], x + 1, y + 1, rng.choice(['A', 'B', 'C', 'D', 'a']) if top else f'L{len(texts)}'])
        if rng.random() < 0.3:
            x, y, a, b = 2 * rng.randrange(w // 2), 2 * rng.randrange(w // 2), 2 * rng.randint(1, 3), 2 * rng.randint(1, 3)
            boxes += [[ids['c3'], x, y, x + a, y + b], [ids['cm'], x, y, x + a, y + b]]
            if rng.random() < 0.7:
                boxes.append([ids['vc'], x, y, x + 2, y + 2])
                if rng.random() < 0.5:                      # both plates on one net
                    boxes += [[ids['m4'], x, y, x + a + 6, y + 2], [ids['v3'], x + a + 2, y, x + a + 4, y + 2], [ids['m3'], x + a, y, x + a + 6, y + 2]]
        if rng.random() < 0.3:                              # a pin in the notch of another one
            x, y = 2 * rng.randrange(w // 2), 2 * rng.randrange(w // 2)
            for b in ([x, y, x + 2, y + 6], [x, y, x + 6, y + 2], [x + 4, y + 4, x + 6, y + 6]):
                boxes += [[ids[k], *b] for k in ('m1', 'p1')]
            for v in (1, 5):
                texts.append([ids['t1'], x + v, y + v, rng.choice(['A', 'B', 'C', 'D', 'a']) if top else f'L{len(texts)}'])
        if c:
            for k in ([c] if rng.random() < 0.8 else []) + [rng.randint(1, c) for _ in range(rng.randint(0, 2))]:
                rot, mir, n = rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1]), rng.choice([1, 1, 1, 2, 3])
                insts.append([k, 2 * rng.randrange(w // 2), 2 * rng.randrange(w // 2), rot, mir, n, 2 * rng.randint(0, W), 2 * rng.randint(-2, W // 2)])
                if n == 1 or insts[-1][6:] == [0, 0]:
                    insts[-1][5:] = [1, 0, 0]
        cells.append(dict(boxes=boxes, texts=texts, insts=insts))
    return cells


def flat(cells, c):
    out = [tuple(b) for b in cells[c]['boxes']]
    for k, x, y, rot, mir, n, dx, dy in cells[c]['insts']:
        for j in range(n):
            t = kdb.Trans(rot, bool(mir), x + j * dx, y + j * dy)
            for b in flat(cells, k - 1):
                q = t * kdb.Box(*b[1:])
                out.append((b[0], q.left, q.bottom, q.right, q.top))
    return out


def fine(bx, conn, ids):
    """no corner contacts (undetermined), not too many shapes"""
    if not 1 <= len(bx) <= 60:
        return False
    for i, p in enumerate(bx):
        for q in bx[:i]:
            if tuple(sorted({p[0], q[0]})) in conn:
                w = min(p[3], q[3]) - max(p[1], q[1])
                h = min(p[4], q[4]) - max(p[2], q[2])
                if w == 0 and h == 0:
                    return False
    return True


def database(cells, roles, ids, conn, rng, d, hier=False):
    ly = kdb.Layout()
    ly.dbu = 0.001
    names = ['TOP' if i == len(cells) - 1 else f'CELL{i}' for i in range(len(cells))]
    order = list(range(len(cells)))
    rng.shuffle(order)
    kc = {i: ly.create_cell(names[i]) for i in order}
    src = {}
    for k, (n, p) in roles.items():
        src[ids[k]] = ly.layer(*(p or (900 + ids[k], 0)))
    for i, c in enumerate(cells):
        whole = {l for l in ids.values() if rng.random() < 0.4}
        for l in whole:
            r = kdb.Region([kdb.Box(*[U * v for v in b]) for k, *b in c['boxes'] if k == l])
            kc[i].shapes(src[l]).insert(r.merged())
        for l, *b in c['boxes']:
            if l not in whole:
                kc[i].shapes(src[l]).insert(kdb.Box(*[U * v for v in b]))
        for l, x, y, s in c['texts']:
            kc[i].shapes(src[l]).insert(kdb.Text(s, kdb.Trans(U * x, U * y)))
        for k, x, y, rot, mir, n, dx, dy in c['insts']:
            t = kdb.Trans(rot, bool(mir), U * x, U * y)
            kc[i].insert(kdb.CellInstArray(kc[k - 1].cell_index(), t, kdb.Vector(U * dx, U * dy), kdb.Vector(), n, 1) if n > 1 else
                         kdb.CellInstArray(kc[k - 1].cell_index(), t))
    top = kc[len(cells) - 1]
    keep = dict(used={top.cell_index()} | set(top.called_cells()))
    for c in list(kc.values()):
        if c.cell_index() not in keep['used']:
            ly.delete_cell(c.cell_index())
    if rng.random() < 0.25:                                 # a placed cell without connections: KLayout leaves it out of the cell it is placed in
        logo = ly.create_cell('LOGO')
        for j in range(rng.randint(1, 3)):
            logo.shapes(src[ids['m1']]).insert(kdb.Box(0, 20 * j * U, 20 * U, (20 * j + 2) * U))
        top.insert(kdb.CellInstArray(logo.cell_index(), kdb.Trans(0, False, 3000 * U, 3000 * U)))
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
    reg = {}
    items = list(roles.items())
    rng.shuffle(items)
    for k, (n, p) in items:
        if k[0] == 't':
            reg[k] = l2n.make_text_layer(src[ids[k]], n)
        elif p:
            reg[k] = l2n.make_layer(src[ids[k]], n)
        else:
            raw = l2n.make_layer(src[ids[k]], f'raw_{k}')
            reg[k] = raw & raw
            l2n.register(reg[k], n)
    l2n.extract_devices(kdb.DeviceExtractorCapacitor('mim', 2e-15), {'P1': reg['c3'], 'P2': reg['cm']})
    for q in conn:
        l2n.connect(*[reg[k] for k in q])
    for k, ms in LAB.items():
        for m in ms:
            l2n.connect(reg[m], reg[k])
    l2n.connect_global(reg['g'], 'substrate')
    l2n.join_net_names('*')
    l2n.extract_netlist()
    if not hier:                                            # what "align" does for circuits the schematic does not have
        for c in [c for c in l2n.netlist().each_circuit_bottom_up() if c.name not in ('TOP', 'LOGO')]:
            l2n.netlist().flatten_circuit(c)
    p = os.path.join(d, f'{rng.random()}.lvsdb')
    l2n.write(p)
    db = kdb.LayoutVsSchematic()
    db.read(p)
    os.remove(p)
    return db


def rects(region):
    out = []
    for q in (kdb.Region(region) if isinstance(region, kdb.Shapes) else region.dup()).merged().decompose_trapezoids_to_region().each():
        if not q.is_box() or any(v % (2 * U) for v in (q.bbox().left, q.bbox().bottom, q.bbox().right, q.bbox().top)):
            raise ValueError(f'off the grid: {q}')
        b = q.bbox()
        out.append([0, b.left // U, b.bottom // U, b.right // U, b.top // U])
    return out


def by_net(region):
    it, tr = region.begin_shapes_rec()
    acc = {}
    while not it.at_end():
        s = it.shape()
        acc.setdefault(s.property('net') or '', kdb.Region()).insert(tr * it.trans() * s.polygon)
        it.next()
    return [dict(net=n, boxes=rects(r)) for n, r in sorted(acc.items())]


def answers(ctx, rec, metals, rng):
    a = dict(layers=[], unnamed=[], ofnet=[], oflayer=[], pins=[], devices=[])
    for pair, e in ctx.extracted_layers.items():
        a['layers'].append(dict(pair=list(pair), src=[dict(name=s.lvs_layer_name, pair=list(s.gds_pair), nets=by_net(s.region)) for s in e.source_layers]))
    for s in ctx.unnamed_layers:
        a['unnamed'].append(dict(name=s.lvs_layer_name, pair=list(s.gds_pair), nets=by_net(s.region)))
    pairs = sorted({tuple(q['pair']) for q in rec['layers'] if q['pair']})
    nets = [n for n in ctx.top_circuit.each_net()]
    names = [n.expanded_name() for n in nets] + ['absent']
    for _ in range(12):
        p, i = rng.choice(pairs), rng.randrange(len(names))
        if rng.random() < 0.5:
            p, i = tuple(rng.choice(rec['metalpairs'])), rng.choice([j for j in range(len(names)) if names[j][0].isalpha()])
        r = ctx.shapes_of_net(p, nets[i] if i < len(nets) and rng.random() < 0.5 else names[i])
        a['ofnet'].append(dict(pair=list(p), net=names[i], some=r is not None, boxes=[] if r is None else rects(r)))
    for p in pairs:
        r = ctx.shapes_of_layer(p)
        a['oflayer'].append(dict(pair=list(p), some=r is not None, nets=[] if r is None else by_net(r)))
    b = ctx.top_cell_bbox()
    a['bbox'] = [b.left // U, b.bottom // U, -(-b.right // U), -(-b.top // U)] if not b.empty() else [0, 0, 0, 0]
    for pair, ps in ctx.pins_pb2_by_layer.items():
        for q in ps:
            pos = q.label_point
            if pos.x % U or pos.y % U or pos.net != q.net_name:
                raise ValueError(f'pin {q}')
            a['pins'].append(dict(metal=metals.get(pair, '?'), label=q.label, x=pos.x // U, y=pos.y // U, net=q.net_name))
    for n, d in ctx.devices_by_name.items():
        ts = []
        for t in d.terminals:
            for l2r in t.region_by_layer:
                li = ctx.annotated_layout.get_info(l2r.layer.id)
                rg = kdb.Region()
                for p in l2r.region.polygons:
                    rg.insert(kdb.Polygon([kdb.Point(v.x, v.y) for v in p.hull_points]))
                ts.append(dict(t=t.terminal_id, net=t.net_name, pair=[li.layer, li.datatype], boxes=rects(rg)))
            if not t.region_by_layer:
                ts.append(dict(t=t.terminal_id, net=t.net_name, pair=[], boxes=[]))
        a['devices'].append(dict(name=n, terms=ts))
    return a


def prepare(i, d, hier=False, lay=None):
    """a layout, its database and technology"""
    quiet_log()
    rng = random.Random(i)
    pdk, roles = rng.choice([('sky130A', SKY), ('ihp_sg13g2', IHP)])
    ids = {k: n + 1 for n, k in enumerate(roles)}
    t = technology(pdk, roles, rng)
    off = [k for k in ('x', 'm4', 'vc') if rng.random() < 0.2]
    conn = [q for q in CONN if not set(q) & set(off)]
    cids = [tuple(sorted(ids[k] for k in q)) for q in conn]
    cells = lay(ids) if lay else None
    while cells is None or not fine(flat(cells, len(cells) - 1), set(cids), ids):
        cells = layout(rng, roles, ids)
    comp = {q.layer_info.name: q for q in t.lvs_computed_layers}
    from klayout_pex_protobuf.kpex.tech import tech_pb2
    K = tech_pb2.ComputedLayerInfo.Kind
    layers = []
    for k, (n, p) in roles.items():
        q = comp.get(n)
        g = q.layer_info.drw_gds_pair if q else None
        layers.append(dict(name=n, known=q is not None, pair=[g.layer, g.datatype] if q else [], kind=K.Name(q.kind)[5:] if q else '',
                           info=list(p or ()), metal=q.original_layer_name.split('.')[0] if q else ''))
    # which shapes can be told apart as capacitors
    bx = flat(cells, len(cells) - 1)
    cap = [b for b in bx if b[0] == ids['c3']]
    alone = all(not (p[1] <= q[3] and q[1] <= p[3] and p[2] <= q[4] and q[2] <= p[4]) for j, p in enumerate(cap) for q in cap[:j])
    rec = dict(kind='context', lay=cells, layers=layers, conn=[sorted(set(c)) for c in cids], glob=[ids['g']],
               lab={str(v): [] for v in range(1, len(roles) + 1)}, bb=rng.random() < 0.4, ndev=len(cap) if alone else -1, plates=[ids['c3'], ids['cm']], seed=repr(i))
    rec['lab'] = [[ids[m] for m in LAB.get(k, [])] for k in roles]
    rec['pdk'] = pdk
    rec['metalpairs'] = [q['pair'] for k, q in zip(roles, layers) if k in ('m1', 'm3', 'p1')]
    db = database(cells, roles, ids, conn, rng, d, hier)
    return rec, db, t, rng


def job(spec):
    i, d = spec
    rec, db, t, rng = prepare(i, d)
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    metals = {(q.drw_gds_pair.layer, q.drw_gds_pair.datatype): q.name for q in t.layers}
    rec['ok'], rec['ans'] = True, {}
    try:
        ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell='TOP', tech=TechInfo(tech=t, dielectric_filter=None), blackbox_devices=rec['bb'])
        rec['ans'] = answers(ctx, rec, metals, rng)
    except Exception as x:
        rec['ok'], rec['error'] = False, f'{type(x).__name__}: {x}'
    return rec


def convert(i):
    """a region with nets and holes, to protobuf and back"""
    quiet_log()
    from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
    import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as pb
    rng = random.Random(i)
    conv = ShapesConverter(dbu=0.001)
    acc = kdb.Region()
    acc.merged_semantics = False
    for n in ['', 'A', 'B', 'net with space', 'ä$1'][:rng.randint(1, 5)]:
        r = kdb.Region()
        for _ in range(rng.randint(1, 6)):
            x, y = rng.randint(-8, 8) * 2 * U, rng.randint(-8, 8) * 2 * U
            r.insert(kdb.Box(x, y, x + rng.randint(1, 6) * 2 * U, y + rng.randint(1, 6) * 2 * U))
        if rng.random() < 0.6:
            h = kdb.Region()
            for _ in range(rng.randint(1, 4)):
                x, y = rng.randint(-6, 8) * 2 * U, rng.randint(-6, 8) * 2 * U
                h.insert(kdb.Box(x, y, x + 2 * U, y + 2 * U))
            r = r - h
        r.merged_semantics = rng.random() < 0.5
        for q in (r.merged(rng.random() < 0.5, 0) if rng.random() < 0.7 else r).each():
            acc.insert(kdb.PolygonWithProperties(q, {'net': n}) if n else q)
    rec = dict(kind='convert', ok=True, before=by_net(acc), after=[], seed=repr(i))
    try:
        m = pb.Region()
        conv.klayout_region_to_pb(acc, m)
        m = pb.Region.FromString(m.SerializeToString())
        back = conv.klayout_region(m)
        back.merged_semantics = False
        rec['after'] = by_net(back)
        b = pb.Box(net=rng.choice(['', 'N']))
        v = [rng.randint(-9, 9) for _ in range(4)]
        b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y = min(v[0], v[2]), min(v[1], v[3]), max(v[0], v[2]), max(v[1], v[3])
        k = conv.klayout_box(b)
        if str(kdb.Box(k.left, k.bottom, k.right, k.top)) != str(kdb.Box(*v)) or (k.property('net') if b.net else '') != b.net:
            raise ValueError(f'{b} became {k}')
    except Exception as x:
        rec['ok'], rec['error'] = False, f'{type(x).__name__}: {x}'
    return rec


KEPT = 'subcircuit-net-names'


def kept_circuits(c):
    """the fixed history of the known finding: the circuit of a placed cell is kept in the LVS netlist"""
    def lay(ids):
        return [dict(boxes=[[ids['m1'], 0, 0, 2, 2], [ids['g'], 4, 0, 6, 2]], texts=[[ids['t1'], 1, 1, 'INT']], insts=[]),
                dict(boxes=[[ids['m1'], 40, 0, 42, 2], [ids['g'], 44, 0, 46, 2]], texts=[[ids['t1'], 41, 1, 'A']], insts=[[1, 0, 0, 0, 0, 2, 10, 0]])]
    rec, db, t, rng = prepare('kept', c.scratch, hier=True, lay=lay)
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell='TOP', tech=TechInfo(tech=t, dielectric_filter=None), blackbox_devices=False)
    rec['bb'], rec['ok'] = False, True
    metals = {(q.drw_gds_pair.layer, q.drw_gds_pair.datatype): q.name for q in t.layers}
    rec['ans'] = answers(ctx, rec, metals, rng)
    return rec


def main(c):
    c.model('HierModel', f"SPECIFICATION Spec\nCONSTANT Wide = {'TRUE' if c.thorough else 'FALSE'}\nINVARIANT HierIsFlat\nCHECK_DEADLOCK FALSE\n")
    with c.pool() as pool:
        recs = pool.map(job, [(c.rng.random(), c.scratch) for _ in range(c.n(320, 6000))])
        recs += pool.map(convert, [c.rng.random() for _ in range(c.n(150, 3000))])
    ctx = [r for r in recs if r['kind'] == 'context']
    c.cov['hierarchical'] = sum(len(r['lay']) > 1 for r in ctx)
    c.cov['shapes'] = sum(len(flat(r['lay'], len(r['lay']) - 1)) for r in ctx)
    c.cov['devices'] = sum(len(r['ans'].get('devices', [])) for r in ctx)
    c.cov['pins'] = sum(len(r['ans'].get('pins', [])) for r in ctx)
    c.sample(dict(layout=ctx[0]['lay'], answer=ctx[0]['ans']))

    def describe(i, cl):
        r = recs[i]
        return f"{cl} {r.get('error', '')}: {r['kind']} {dict((k, v) for k, v in r.items() if k in ('pdk', 'bb', 'lay', 'before', 'after'))}"
    recs.append(kept_circuits(c))
    # shapes of the two placements have the same net name, as what the circuit's net is called
    c.validate('LvsContextTrace', recs, describe=describe, key=lambda i, cl: KEPT if i == len(recs) - 1 and cl == 'mixed' else None)
