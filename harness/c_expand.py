"""C12: the expanded netlist of a field solver run holds the capacitances of the matrix."""
import json
import os
import random
import shutil
import sys
import klayout.db as kdb
from vlib import quiet_log, NPROC
from layout_lib import build_l2n

NAMES = ['A', 'B', 'clk', 'Q_N', 'a[0]', 'd<3>', 'g1_x', 'n_12', 'VDD', 'VSS', 'X1/net', 'q.2', 'out#', 'A_B', '1', 'g2', 'net!', 'en_', '_']


def matrix(rng, n, whole):
    top = rng.choice([40, 3000, 200000])
    kind = rng.choice(['real', 'real', 'noisy', 'any'])
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            v = rng.choice([0, rng.randint(0, 30), rng.randint(0, top), rng.randint(0, top)])
            if kind != 'real' and rng.random() < 0.2:
                v = -rng.randint(0, 20)
            if kind == 'any' and rng.random() < 0.3:
                v = -v
            m[i][j] = m[j][i] = -v
            if whole:
                e = rng.randint(0, max(0, v // 3))
                m[i][j] -= e
                m[j][i] += e
    for i in range(n):
        s = -sum((m[i][j] + m[j][i]) // 2 for j in range(n) if j != i)
        m[i][i] = s + (rng.choice([0, rng.randint(0, top), rng.randint(0, 50)]) if kind == 'real' else rng.randint(-top, top) if kind == 'any'
                       else rng.randint(-3, 40))
    return m


def params(d):
    return [f'{p.name}={d.parameter(p.id()):.6g}' for p in d.device_class().parameter_definitions()]


def dev_str(d):
    ts = [(t.name, d.net_for_terminal(t.id())) for t in d.device_class().terminal_definitions()]
    return f"{d.device_class().name} {d.expanded_name()} {[(t, n.expanded_name() if n else '') for t, n in ts]} {params(d)}"


def circuit_str(c):
    return [c.name, [f"{p.name()}:{(lambda n: n.expanded_name() if n else '')(c.net_for_pin(p.id()))}" for p in c.each_pin()]]


def others(nl, top):
    t = nl.circuit_by_name(top)
    return json.dumps([circuit_str(t), [f"{s.expanded_name()} {s.circuit_ref().name} " + ' '.join(str(s.net_for_pin(k).expanded_name() if s.net_for_pin(k) else '-')
                                        for k in range(s.circuit_ref().pin_count())) for s in t.each_subcircuit()],
                       sorted(json.dumps([circuit_str(c), [dev_str(d) for d in c.each_device()], [n.expanded_name() for n in c.each_net()]])
                              for c in nl.each_circuit() if c.name != top)])


def build(s, rng):
    nl = kdb.Netlist()
    classes = [(kdb.DeviceClassMOS4Transistor(), 'nfet', 'SGDB', dict(L=0.15, W=1)), (kdb.DeviceClassCapacitor(), 'mimcap', 'AB', dict(C=1e-15)),
               (kdb.DeviceClassResistor(), 'rpoly', 'AB', dict(R=50)), (kdb.DeviceClassDiode(), 'dnw', 'AC', dict(A=2))]
    for dc, name, _, _ in classes:
        dc.name = name
        nl.add(dc)
    sub = kdb.Circuit()
    sub.name = 'SUB'
    nl.add(sub)
    pins = [sub.create_pin(x) for x in 'XY']
    for p in pins:
        n = sub.create_net(p.name())
        n.cluster_id = p.id() + 1
        sub.connect_pin(p, n)
    d = sub.create_device(classes[2][0], 'R1')
    for k in 'AB':
        d.connect_terminal(k, sub.net_for_pin('AB'.index(k)))
    top = kdb.Circuit()
    top.name = 'TOP'
    nl.add(top)
    nets = []
    for k, name in enumerate(s['names']):
        n = top.create_net(name)
        n.cluster_id = k + 1
        nets.append(n)
    for k in s['pins']:
        top.connect_pin(top.create_pin(f'P{k}'), nets[k])
    for k in range(s['devs']):
        dc, _, ts, ps = rng.choice(classes)
        d = top.create_device(dc, rng.choice(['', f'D{k}']))
        for t in ts:
            if rng.random() < 0.95:
                d.connect_terminal(t, rng.choice(nets))
        for p, v in ps.items():
            d.set_parameter(p, v * rng.randint(1, 4))
    if s['sub']:
        i = top.create_subcircuit(sub, 'X1')
        for p in pins:
            i.connect_pin(p, rng.choice(nets))
    return nl


def split(nl, r, unit):
    t = nl.circuit_by_name('TOP')
    r['dev'] = []
    for d in t.each_device():
        dc = d.device_class()
        if dc.name in ('PEX_CAP', 'PEX_RES'):
            c = dc.name == 'PEX_CAP'
            v = d.parameter('C') / unit if c else d.parameter('R') * 1000
            iv = round(max(-2e9, min(2e9, v)))
            a = dict(d=d.expanded_name(), a=d.net_for_terminal('A').expanded_name(), b=d.net_for_terminal('B').expanded_name(),
                     v=iv if abs(v - iv) < 1e-3 else 2 * 10 ** 9)
            r['caps' if c else 'ress'].append(a)
        else:
            r['dev'].append(dev_str(d))
    r['nets'] = [n.expanded_name() for n in t.each_net()]
    r['other'] = others(nl, 'TOP')


def read_csv(path, r):
    lines = open(path, encoding='utf-8').read().split('\n')
    if lines[0] != 'Device;Net1;Net2;Capacitance [fF]' or lines[-1] != '':
        r['csv'] = [dict(d='?', a='', b='', q=0)] * (len(lines) + 1)
        return
    for ln in lines[1:-1]:
        f = ln.split(';')
        r['csv'].append(dict(d=f[0], a=f[1], b=f[2], q=round(float(f[3]) * 100)) if len(f) == 4 else dict(d=ln, a='', b='', q=0))


def job(s):
    quiet_log()
    from klayout_pex.klayout.netlist_expander import NetlistExpander
    from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    rng = random.Random(s['i'])
    nl = build(s, rng)
    top = nl.circuit_by_name('TOP')
    names = [n.expanded_name() for n in top.each_net()]
    cond = [x if isinstance(x, str) else names[x] for x in s['cond']]
    unit = 10.0 ** s['e']
    r = dict(whole=False, m=s['m'], cond=cond, names=names, unknown=s['unknown'], keep=s['keep'], caps=[], ress=[], dev=[], nets=[], csv=[],
             csvk=-17 - s['e'], other='', other0=others(nl, 'TOP'), dev0=[dev_str(d) for d in top.each_device()], ok=True, modified=False)
    before = nl.to_s()
    prefix = list(range(1, len(cond) + 1)) if rng.random() < 0.5 else sorted(rng.sample(range(1, 40), len(cond)))
    try:
        cm = CapacitanceMatrix(conductor_names=[f'g{p}_{n}' for p, n in zip(prefix, cond)], rows=[[v * unit for v in row] for row in s['m']])
        x = NetlistExpander().expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=cm, blackbox_devices=s['keep'])
        split(x, r, unit)
        p = s['dir'] + f"/e{s['i']}.csv"
        NetlistCSVWriter().write_csv(netlist=x, top_cell_name='TOP', output_path=p)
        read_csv(p, r)
        os.remove(p)
        r['modified'] = nl.to_s() != before
    except Exception as ex:
        r['ok'] = False
        r['error'] = f'{type(ex).__name__}: {ex}'[:300]
    return r


FASTERCAP = '''#!/bin/bash
cat %s
'''


def whole(s):
    """a run of kpex"""
    import rcx
    import c_engines
    from c_out25 import unfold
    quiet_log()
    from klayout_pex.kpex_cli import KpexCLI
    rng = random.Random(s['i'])
    d = s['dir'] + f"/w{s['i']}"
    os.makedirs(d)
    names = s['names']
    l2n = build_l2n([(rng.choice([1, 2, 3]), n, kdb.Box(0, 1000 * k, rng.randint(2, 6) * 500, 1000 * k + 300)) for k, n in enumerate(names)], lvs=True)
    top = l2n.netlist().circuit_by_name('TOP')
    for n in list(top.each_net()):
        top.connect_pin(top.create_pin(n.expanded_name()), n)
    if s.get('dummy'):
        pass
    l2n.write(d + '/x.lvsdb.gz')
    allnames = [n.expanded_name() for n in top.each_net()]
    cond = ['VSUBS'] + allnames
    if s['unknown']:
        cond[-1] = 'nosuch'
    r = dict(whole=True, m=s['m'], cond=cond, names=allnames, unknown=s['unknown'], keep=True, caps=[], ress=[], dev=[], nets=[], csv=[],
             csvk=1, other='', other0='', dev0=[], ok=True, modified=False, fastcap=s['fastcap'])
    with open(d + '/out.txt', 'w') as f:
        if s['fastcap']:
            w = max(map(len, cond)) + 10
            f.write('Running fastcap 2.0\nCAPACITANCE MATRIX, attofarads\n' + ' ' * (w + 3) + ' '.join(f'{k + 1:>10}' for k in range(len(cond))) + '\n')
            for k, n in enumerate(cond):
                f.write(f"{n + '%GROUP' + str(k + 1):<{w}} {k + 1} " + ' '.join(f"{v / 1000:>10.7g}" for v in s['m'][k]) + '\n')
            f.write('\nTotal time: 1\n')
        else:
            f.write(f'Running FasterCap\nCapacitance matrix is:\nDimension {len(cond)} x {len(cond)}\n')
            for k, n in enumerate(cond):
                f.write(f'g{k + 1}_{n}  ' + ' '.join(f'{v}e-12' for v in s['m'][k]) + ' \n')
            f.write('\nTotal time: 1s\n')
    for name in ('fastercap', 'fastcap'):
        with open(f'{d}/{name}', 'w') as f:
            f.write(FASTERCAP % (d + '/out.txt'))
        os.chmod(f'{d}/{name}', 0o755)
        os.environ[f'KPEX_{name.upper()}_EXE'] = f'{d}/{name}'
    os.environ['KPEX_KLAYOUT_EXE'] = '/bin/true'
    eng = 'FastCap2' if s['fastcap'] else 'FasterCap'
    try:
        with rcx.Silence():
            KpexCLI().main(['kpex', '--pdk', 'sky130A', '--lvsdb', d + '/x.lvsdb.gz', '--out_dir', d + '/out', '--fastcap' if s['fastcap'] else '--fastercap',
                            '--log_level', 'critical', '--geo_check', 'false', '--blackbox', rng.choice(['yes', 'no'])])
    except (Exception, SystemExit) as ex:
        r['ok'] = False
        r['error'] = f'{type(ex).__name__}: {ex}'[:300]
    finally:
        c_engines.drop_handlers()
    if r['ok']:
        try:
            base = next(os.path.join(p, f) for p, _, fs in os.walk(d + '/out') for f in fs if f.endswith(f'_{eng}_Expanded_Netlist.cir'))
            for ln in unfold(base):
                t = ln.replace('\\', '').split()
                if t[0][0] in 'CR' and 'ext_' in t[0]:
                    v = float(t[3]) * (1e18 if t[0][0] == 'C' else 1000)
                    r['caps' if t[0][0] == 'C' else 'ress'].append(dict(d=t[0][1:], a=t[1], b=t[2], v=round(v) if abs(v - round(v)) < 1e-3 else 2 * 10 ** 9))
                elif t[0][0] not in '.*':
                    r['dev'].append(ln)
            if s['fastcap']:
                r['csv'] = []
            else:
                read_csv(base.replace('.cir', '.csv'), r)
        except Exception as ex:
            r['ok'] = False
            r['error'] = f'results: {type(ex).__name__}: {ex}'[:300]
    shutil.rmtree(d, ignore_errors=True)
    return r


def main(c):
    c.model('ExpandModel', f'SPECIFICATION Spec\nCONSTANTS N = {c.n(3, 4)}\n MaxC = {c.n(3, 2)}\nINVARIANTS SameStructure NoLoops\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng
    specs = []
    for i in range(c.n(4000, 24000)):
        n = rng.randint(1, 7)
        names = rng.sample(NAMES, n)
        for special in ('FC_GND', 'GND', 'VSUBS', 'VSUBS'):
            if rng.random() < 0.2 and special not in names:
                names.insert(rng.randint(0, len(names)), special)
        names = [None if x in NAMES and rng.random() < 0.2 else x for x in names]
        cond = rng.sample([k for k, x in enumerate(names) if x not in ('FC_GND', 'VSUBS')], rng.randint(1, n))
        if 'VSUBS' in names or rng.random() < 0.7:
            cond.insert(0, 'VSUBS')
        unknown = rng.random() < 0.05
        if unknown:
            cond[rng.randrange(len(cond))] = rng.choice(['nosuch', 'a', 'SUB', '$77', 'X1', ''])
        s = dict(i=i, names=names, cond=cond, unknown=unknown, keep=rng.random() < 0.5, devs=rng.choice([0, 1, 2, 3, 6]), sub=rng.random() < 0.3,
                 pins=sorted(rng.sample(range(len(names)), rng.randint(0, len(names)))), e=rng.choice([-18, -18, -19, -21, -18]), dir=c.scratch)
        s['m'] = matrix(rng, len(cond), False)
        specs.append(s)
    wholes = []
    for i in range(c.n(48, 400)):
        n = rng.randint(1, 5)
        names = rng.sample([x for x in NAMES if x not in ('g2', '1') and '/' not in x], n)
        s = dict(i=i, names=[None if rng.random() < 0.2 else x for x in names], m=matrix(rng, n + 1, True), unknown=rng.random() < 0.05, dir=c.scratch,
                 fastcap=i % 24 == 5)
        wholes.append(s)
    with c.pool() as pool:
        recs = list(pool.imap(job, specs, chunksize=20))
        wr = list(pool.imap(whole, wholes))
    for r in wr:
        if r['fastcap'] and not r['ok'] and not r['unknown']:
            c.fail('fastcap', 'a run with FastCap2 fails: ' + r['error'], r, key='fastcap-names')
    recs += [r for r in wr if not r['fastcap']]
    c.cov['runs_of_kpex'] = sum(r['whole'] for r in recs)
    c.cov['capacitors'] = sum(len(r['caps']) for r in recs)
    c.sample(recs[0])
    c.validate('ExpandTrace', recs, shards=NPROC, describe=lambda i, cl: f"record {i}: {cl}: {recs[i].get('error', '')} {json.dumps(recs[i])[:700]}")
