"""C06 summary of the 2.5D results"""
from vlib import quiet_log, NPROC

NETS = ['A', 'a', 'B', 'VDD', 'VSUBS', 'n.1', 'n.$0.6', '$3', 'vdd', 'in[0]', 'in[10]', 'Z<3>', 'b']
LCM = 12
RV = [1, 2, 3, 4, 6, 12]


def build_results(cells):
    """cells: {cell: entries}; entry = dict(t='C', how=0..2, a, b, v) | dict(t='R', net, a, b, v)"""
    from klayout_pex.rcx25.extraction_results import (ExtractionResults, CellExtractionResults, OverlapKey, OverlapCap,
                                                      SidewallKey, SidewallCap, SideOverlapKey, SideOverlapCap)
    er = ExtractionResults()
    for cell, entries in cells.items():
        r = CellExtractionResults(cell_name=cell)
        nid = [0]
        networks = {}
        for e in entries:
            if e['t'] == 'C':
                if e['how'] == 0:
                    r.add_overlap_cap(OverlapCap(key=OverlapKey(layer_top=e['l1'], net_top=e['a'], layer_bot=e['l2'], net_bot=e['b']),
                                                 cap_value=e['f'], shielded_area=1.0, unshielded_area=1.0, tech_spec=None))
                elif e['how'] == 1:
                    r.add_sidewall_cap(SidewallCap(key=SidewallKey(layer=e['l1'], net1=e['a'], net2=e['b']), cap_value=e['f'],
                                                   distance=1.0, length=1.0, tech_spec=None))
                else:
                    r.add_sideoverlap_cap(SideOverlapCap(key=SideOverlapKey(layer_inside=e['l1'], net_inside=e['a'],
                                                                           layer_outside=e['l2'], net_outside=e['b']),
                                                         cap_value=e['f']))
            else:
                nw = networks.get(e['net'])
                if nw is None:
                    nw = networks[e['net']] = (r.r_extraction_result.networks.add(), {})
                    nw[0].net_name = e['net']
                ids = []
                for q in (e['a'], e['b']):
                    key = (q, e.get('dup', {}).get(q, 0))
                    if key not in nw[1]:
                        nid[0] += 1
                        n = nw[0].nodes.add()
                        # ids need only be unique within a network
                        n.node_id = len(nw[1]) + (0 if e['same_ids'] else 1000 * len(networks))
                        n.node_name = f'N{nid[0]}'
                        n.net_name = q
                        nw[1][key] = n.node_id
                    ids.append(nw[1][key])
                el = nw[0].elements.add()
                el.element_id = nid[0]
                el.node_a.node_id, el.node_b.node_id = ids
                el.resistance = float(e['v'])
        er.cell_extraction_results[cell] = r
    return er


def gen_cells(rng, ncells=None, nets=None):
    nets = nets or rng.sample(NETS, rng.randint(2, 6))
    layers = ['poly', 'li1', 'met1', 'met2']
    cells = {}
    for i in range(ncells or rng.choice([1, 1, 1, 2, 3])):
        es = []
        same = rng.random() < 0.5
        for _ in range(rng.randint(0, 14)):
            if rng.random() < 0.6:
                a, b = rng.sample(nets, 2)
                v = rng.choice([0, 1, 2, 3, 5, 17, 256, 999, 4096])
                es.append(dict(t='C', how=rng.randrange(3), a=a, b=b, l1=rng.choice(layers), l2=rng.choice(layers), v=v, f=v / 64))
            else:
                net = rng.choice(nets)
                inner = [f'{net}.${k}.6' for k in range(2)]
                a, b = rng.choice([(net, inner[0]), (inner[0], net), (inner[0], inner[1]), (inner[1], inner[0]), (net, net), (inner[1], net)])
                es.append(dict(t='R', net=net, a=a, b=b, v=rng.choice(RV + RV + [0]), same_ids=same,
                               dup={net: rng.randrange(3)} if rng.random() < 0.5 and a != b else {}))
        cells[f'CELL{i}'] = es
    return cells


def observe(s, scale=64):
    return dict(caps=[dict(a=k.net1, b=k.net2, v=int(round(v * scale))) for k, v in s.capacitances.items()],
                res=[dict(a=k.net1, b=k.net2, v=int(round(v * 1000))) for k, v in s.resistances.items()])


def job(cells):
    quiet_log()
    rec = dict(cells=[], caps=[], res=[], crash=False)
    try:
        er = build_results(cells)
        for cell, es in cells.items():
            rec['cells'].append(dict(entries=[{k: e[k] for k in ('t', 'a', 'b', 'v')} for e in es],
                                     **observe(er.cell_extraction_results[cell].summarize())))
        rec.update(observe(er.summarize()))
        # asking again gives the same
        if observe(er.summarize()) != {k: rec[k] for k in ('caps', 'res')}:
            raise Exception('not repeatable')
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    return rec


def main(c):
    inv = 'INVARIANTS MergeIsFlat Conservation AtMostSmallest\nCHECK_DEADLOCK FALSE\n'
    for nets, me, cells in c.n([(2, 3, 2)], [(2, 3, 2), (3, 3, 1), (2, 4, 1)]):
        c.model('SummaryModel', 'SPECIFICATION Spec\nCONSTANTS LCM = 6\n CapV = {0, 1, 5}\n ResV = {0, 2, 3}\n'
                f' Nets = {{{", ".join("n%d" % i for i in range(nets))}}}\n MaxEntries = {me}\n'
                f' Cells = {{{", ".join("x%d" % i for i in range(cells))}}}\n'
                + ''.join(f' n{i} = n{i}\n' for i in range(nets)) + ''.join(f' x{i} = x{i}\n' for i in range(cells)) + inv)
    specs = [gen_cells(c.rng) for _ in range(c.n(4000, 30000))]
    with c.pool() as pool:
        recs = pool.map(job, specs, chunksize=50)
    c.cov['results_summarized'] = len(recs)
    c.sample(recs[-1])
    c.validate('SummaryTrace', recs, cfg_extra='CONSTANTS LCM = 12\n', shards=NPROC,
               describe=lambda i, cl: f"results {i}: {cl} {recs[i].get('error', '')}")
