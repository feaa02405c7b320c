"""C13: netlist reduction keeps the electrical behaviour, and drops only small capacitors."""
import json
import random
from fractions import Fraction
import klayout.db as kdb
from vlib import quiet_log, NPROC, MachineryError

UNITS = [1e-18, 2.0 ** -60]     # of capacitances; the second one keeps sums exact


def frac(x):
    f = Fraction(x).limit_denominator(20000)
    if abs(float(f) - x) > 1e-7 * max(1e-3, abs(x)):
        return [-1, 1]
    return [f.numerator, f.denominator]


def build(spec):
    rng = random.Random(spec['i'])
    nl = kdb.Netlist()
    cap, res, mos, dio = kdb.DeviceClassCapacitor(), kdb.DeviceClassResistor(), kdb.DeviceClassMOS4Transistor(), kdb.DeviceClassInductor()
    cap.name, res.name, mos.name, dio.name = spec['names']
    for d in (cap, res, mos, dio):
        nl.add(d)
    if spec['sub']:
        o = kdb.Circuit()
        o.name = 'OTHER'
        nl.add(o)
    top = kdb.Circuit()
    top.name = 'TOP'
    nl.add(top)
    nets = []
    for k in range(spec['n']):
        nets.append(top.create_net(f'n{k}' if not spec['anon'][k] else None))
        nets[-1].cluster_id = k + 1
    for k in spec['pins']:
        top.connect_pin(top.create_pin(f'n{k}'), nets[k])

    def dev(dc, name, terms, **params):
        d = top.create_device(dc, name)
        for t, n in terms.items():
            d.connect_terminal(t, nets[n])
        for p, v in params.items():
            d.set_parameter(p, v)
    items = [('c', *x) for x in spec['caps']] + [('r', *x) for x in spec['ress']] + [('m', *x) for x in spec['mos']] + [('d', *x) for x in spec['dio']]
    rng.shuffle(items)
    for k, it in enumerate(items):
        if it[0] == 'c':
            dev(cap, f'C{k}', dict(A=it[1], B=it[2]), C=it[3] * UNITS[spec['exact']])
        elif it[0] == 'r':
            dev(res, f'R{k}', dict(A=it[1], B=it[2]), R=it[3])
        elif it[0] == 'm':
            dev(mos, f'M{k}', dict(S=it[1], G=it[2], D=it[3], B=it[4]), L=it[5], W=it[6])
        else:
            dev(dio, f'L{k}', dict(A=it[1], B=it[2]), L=it[3])
    return nl


def circuit(nl, ids, unit):
    top = nl.circuit_by_name('TOP')
    r = dict(caps=[], ress=[], mos=[], others=[], pins=[f'{p.name()}={ids[top.net_for_pin(p.id()).expanded_name()]}' for p in top.each_pin()])

    def net(d, t):
        n = d.net_for_terminal(t)
        return ids[n.expanded_name()] if n else 0
    for d in top.each_device():
        dc = d.device_class()
        if isinstance(dc, kdb.DeviceClassCapacitor):
            r['caps'].append(dict(a=net(d, 'A'), b=net(d, 'B'), v=frac(d.parameter('C') / unit)))
        elif isinstance(dc, kdb.DeviceClassResistor):
            r['ress'].append(dict(a=net(d, 'A'), b=net(d, 'B'), v=frac(d.parameter('R'))))
        elif isinstance(dc, kdb.DeviceClassMOS4Transistor):
            sd = '-'.join(map(str, sorted([net(d, 'S'), net(d, 'D')])))
            r['mos'].append(dict(key=f"{sd} {net(d, 'G')} {net(d, 'B')} {d.parameter('L'):.6g}", w=frac(d.parameter('W'))))
        else:
            r['others'].append(f"{d.expanded_name()} {dc.name} {net(d, 'A')} {net(d, 'B')} {d.parameter('L'):.6g}")
    return r


def mixed(nl):
    """KLayout (0.30) leaves the ids of device classes copied by Netlist.dup() uninitialised, and combine_devices() takes
    classes of the same id for the same: a known finding. True if that has happened by chance."""
    ids = [dc.id() for dc in nl.each_device_class()]
    return len(set(ids)) < len(ids)


def job(spec):
    quiet_log()
    from klayout_pex.klayout.netlist_reducer import NetlistReducer
    nl = build(spec)
    ids = {n.expanded_name(): k + 1 for k, n in enumerate(nl.circuit_by_name('TOP').each_net())}
    UNIT = UNITS[spec['exact']]
    o = circuit(nl, ids, UNIT)
    rec = dict(mixed=False, crash=False, exact=bool(spec['exact']), orig=o, zero=o, red=o, th=50, modified=False, visC=spec['visC'], visR=spec['visR'])
    before = nl.to_s()
    try:
        zero = NetlistReducer().reduce(netlist=nl, top_cell_name='TOP', cap_threshold=0)
        rec['mixed'] = mixed(zero)
        rec['zero'] = circuit(zero, ids, UNIT)
        if spec['th'] == 50 and spec['i'] % 2 and not spec['exact']:
            red = NetlistReducer().reduce(netlist=nl, top_cell_name='TOP')     # 0.05 fF is the default
        else:
            rec['th'] = spec['th']
            red = NetlistReducer().reduce(netlist=nl, top_cell_name='TOP', cap_threshold=(spec['th']) * UNIT)
        rec['mixed'] = rec['mixed'] or mixed(red)
        rec['red'] = circuit(red, ids, UNIT)
        rec['modified'] = nl.to_s() != before
    except Exception as x:
        rec['crash'] = True
        rec['error'] = f'{type(x).__name__}: {x}'
        if 'Terminal still connected after removing device' in rec['error']:
            rec['mixed'] = True        # KLayout gives up, having combined devices of two classes
    return rec


def fits(spec):
    """are the numbers of the specification small enough for 32 bit?"""
    def elim(els, vis):
        Y = {}
        for a, b, v in els:
            if a != b and v:
                Y[frozenset((a, b))] = Y.get(frozenset((a, b)), 0) + Fraction(v)
        big = 1
        nets = {x for p in Y for x in p}
        for n in sorted(nets - vis):
            nb = {next(iter(p - {n})): v for p, v in Y.items() if n in p}
            S = sum(nb.values())
            big = max(big, S.numerator * S.denominator)
            Y = {p: v for p, v in Y.items() if n not in p}
            for i in nb:
                for j in nb:
                    if i < j:
                        p = frozenset((i, j))
                        Y[p] = Y.get(p, 0) + nb[i] * nb[j] / S
                        big = max(big, Y[p].numerator * Y[p].denominator)
        return big < 2 ** 20
    return elim(spec['caps'], {x - 1 for x in spec['visC']}) and elim([(a, b, Fraction(1, v) if v else 0) for a, b, v in spec['ress']], {x - 1 for x in spec['visR']})


def main(c):
    c.model('NetworkModel', f'SPECIFICATION Spec\nCONSTANTS N = 4\n Hidden = {{3, 4}}\n Vals = {{1, 2}}\n MaxEls = {c.n(3, 4)}\nINVARIANT Equivalent\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng
    specs = []
    while len(specs) < c.n(4000, 30000):
        n = rng.randint(2, 7)
        big = len(specs) % 100 == 99
        if big:
            n = 16
        s = dict(i=len(specs), n=n, sub=rng.random() < 0.2, th=rng.choice([50, 50, 50, 7, 400]),
                 names=rng.choice([['PEX_CAP', 'PEX_RES', 'nfet', 'ind'], ['sky130_cap', 'res_generic', 'nfet', 'ind']]),
                 pins=sorted(rng.sample(range(n), rng.randint(0, n))), caps=[], ress=[], mos=[], dio=[])
        s['anon'] = [k not in s['pins'] and rng.random() < 0.3 for k in range(n)]
        scale = rng.choice([1, 10, 100])
        if big:
            s['pins'], s['anon'] = list(range(n)), [False] * n
        for _ in range(rng.randint(120, 220) if big else rng.randint(0, 8)):
            a, b = rng.sample(range(n), 2)
            s['caps'].append((a, b, rng.choice([1, 2, 3, 4, 6]) * scale + rng.choice([0, 0, 0, 5])))
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            a, b = rng.sample(range(n), 2)
            s['ress'].append((a, b, rng.choice([1, 2, 3, 6, 10])))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            a, b = rng.sample(range(n), 2)
            s['ress'].append((a, b, 0))
        for _ in range(rng.choice([0, 0, 1, 3])):
            x = rng.sample(range(n), 2)
            s['mos'] += [(rng.choice(x), rng.choice(x), rng.choice(x), x[0], rng.choice([0.15, 0.18]), rng.choice([1, 2]))] * rng.choice([1, 2])
        for _ in range(rng.choice([0, 0, 1])):
            s['dio'].append((*rng.sample(range(n), 2), rng.choice([1, 2])))
        s['exact'] = int(rng.random() < 0.4)
        if s['exact'] and s['caps'] and rng.random() < 0.6:
            # a threshold that is met
            p = set(rng.choice(s['caps'])[:2])
            s['th'] = sum(x[2] for x in s['caps'] if set(x[:2]) == p)
        base = set(s['pins']) | {x for m in s['mos'] for x in m[:4]} | {x for m in s['dio'] for x in m[:2]}
        s['visC'] = sorted({x + 1 for x in base | {x for r in s['ress'] for x in r[:2]}})
        s['visR'] = sorted({x + 1 for x in base | {x for r in s['caps'] for x in r[:2]}})
        if fits(s):
            specs.append(s)
    with c.pool() as pool:
        recs = list(pool.imap(job, specs, chunksize=20))
    if any(r['mixed'] for r in recs):
        c.fail('devices-of-two-classes-merged', 'devices of two classes between the same nets are merged', key='klayout-dup-ids')
    c.cov['netlists_with_mixed_device_classes'] = sum(r['mixed'] for r in recs)
    recs = [r for r in recs if not r['mixed']]
    if len(recs) < len(specs) // 5:
        raise MachineryError('KLayout mixes up device classes in most netlists')
    c.cov['capacitors_before'] = sum(len(r['orig']['caps']) for r in recs)
    c.cov['capacitors_merged'] = sum(len(r['zero']['caps']) for r in recs)
    c.cov['capacitors_left'] = sum(len(r['red']['caps']) for r in recs)
    c.sample(recs[0])
    c.validate('ReduceTrace', recs, shards=NPROC, describe=lambda i, cl: f"netlist {i}: {cl}: {recs[i].get('error', '')} {json.dumps(recs[i])[:1800]}")
