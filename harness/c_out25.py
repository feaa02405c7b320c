"""C05 modes and options of the 2.5D engine, C07 its outputs"""
import glob
import itertools
import os
import random
import shutil
import klayout.db as kdb
from vlib import quiet_log, NPROC
import c_rext
import c_summary


def unfold(path):
    lines = []
    for ln in open(path, encoding='utf-8').read().split('\n'):
        if ln.startswith('+') and lines:
            lines[-1] += ' ' + ln[1:].strip()
        elif ln.strip() and not ln.startswith('*'):
            lines.append(ln.strip())
    return lines


def sig(v):
    """seven significant digits: mantissa and exponent"""
    if not v:
        return dict(m=0, e=0)
    m, e = f'{v:.6e}'.split('e')
    return dict(m=int(round(float(m) * 10 ** 6)), e=int(e))


def parse_spice(path, top):
    """pins, parasitic devices, other lines of the subcircuit"""
    pins, devs, others, inside = None, [], [], False
    for ln in unfold(path):
        tok = [t.replace('\\', '').replace('|', ',').replace('x2d', '-') for t in ln.split()]     # KLayout writes the net A,B as A|B
        if tok[0].upper() == '.SUBCKT':
            inside = tok[1] == top
            if inside:
                pins = tok[2:]
        elif tok[0].upper() == '.ENDS':
            inside = False
        elif inside:
            if tok[0].startswith('Cext_') or tok[0].startswith('Rext_'):
                devs.append(dict(t=tok[0][0], name=tok[0][1:], a=tok[1], b=tok[2],
                                 g=sig(float(tok[3]))))
            else:
                others.append(' '.join(tok))
    return pins, devs, others


def parse_csv(path):
    rows = []
    lines = open(path, encoding='utf-8').read().split('\n')
    assert lines[0] == 'Device;Net1;Net2;Capacitance [fF];Resistance [Ω]', lines[0]
    for ln in lines[1:]:
        if not ln:
            continue
        dev, a, b, c, r = ln.split(';')
        t = 'C' if c != '' else 'R'
        if (c != '') == (r != '') or dev[0] != t:
            t = '?'
        rows.append(dict(dev=dev, t=t, n=int(dev[1:]), a=a, b=b, v=int(round(float(c) * 1000)) if c else int(round(float(r) * 1000))))
    return rows


def summary_record(s):
    return dict(caps=[dict(a=k.net1, b=k.net2, v=int(round(v * 1000)), g=sig(v * 1e-15)) for k, v in s.capacitances.items()],
                res=[dict(a=k.net1, b=k.net2, v=int(round(v * 1000)), g=sig(v)) for k, v in s.resistances.items()])


def run_cli(lvsdb_path, pdk, out, opts):
    from klayout_pex.kpex_cli import KpexCLI
    argv = ['kpex', '--pdk', pdk, '--lvsdb', lvsdb_path, '--out_dir', out, '--2.5D', '--log_level', 'critical']
    if opts['mode']:
        argv += ['--mode', opts['mode']]
    if opts['halo'] >= 0:
        argv += ['--halo', str(opts['halo'] / 1000)]
    if opts['scale']:
        argv += ['--scale', opts['scale']]
    if opts['blackbox']:
        argv += ['--blackbox', opts['blackbox']]
    cli = KpexCLI()
    try:
        cli.main(argv)
    finally:
        import logging
        for lg in [logging.getLogger()] + [logging.getLogger(n) for n in list(logging.root.manager.loggerDict)]:
            for h in list(getattr(lg, 'handlers', [])):
                if isinstance(h, logging.FileHandler):
                    lg.removeHandler(h)
                    h.close()
    return cli


def job(spec):
    import rcx
    quiet_log()
    os.environ['KPEX_KLAYOUT_EXE'] = '/bin/true'
    pdk, lay = spec['pdk'], spec['lay']
    d = os.path.join(spec['scratch'], f"l{spec['i']}")
    os.makedirs(d)
    t = rcx.shipped_tech(pdk)
    halo = int(round(t.process_parasitics.side_halo * 1000))
    rec5 = dict(halo=halo, runs=[])
    rec7 = []
    with rcx.Silence():
        l2n = c_rext.build(pdk, lay)
        path = os.path.join(d, 'x.lvsdb.gz')
        l2n.write(path)
        onl = l2n.netlist()
        w = kdb.NetlistSpiceWriter()
        w.use_net_names = True
        w.with_comments = False
        onl.write(os.path.join(d, 'o.spice'), w)
        opins, _, olines = parse_spice(os.path.join(d, 'o.spice'), 'TOP')
        for j, opts in enumerate(spec['runs']):
            run = dict(o=opts, crash=False, caps=[], res=[])
            rec = dict(crash=False, caps=[], res=[], csv=[], hascsv=True, devs=[], orig=[dict(s=s, cap=False) for s in olines],
                       others=[], pins=[], origpins=opins, nets=[], orignets=[], hasnets=False,
                       blackbox=opts['blackbox'] == 'true')
            try:
                if opts.get('engine'):
                    tt = rcx.shipped_tech(pdk)
                    if opts['halo'] >= 0:
                        tt.process_parasitics.side_halo = opts['halo'] / 1000
                    l2 = kdb.LayoutVsSchematic()
                    l2.read(path)
                    res, _, _ = rcx.extract(l2, tt, d, mode=rcx.PEXMode(opts['mode'] or 'CC'), scale=opts['scale'] != 'false',
                                            blackbox=opts['blackbox'] == 'true', report=os.path.join(d, 'r.rdb.gz'))
                    run.update(summary_record(res.summarize()))
                else:
                    out = os.path.join(d, f'o{j}')
                    cli = run_cli(path, pdk, out, opts)
                    run.update(summary_record(cli.rcx25_extraction_results.summarize()))
                    rec.update(caps=run['caps'], res=run['res'])
                    rec['csv'] = parse_csv(cli.rcx25_extracted_csv_path)
                    rec['pins'], rec['devs'], rec['others'] = parse_spice(
                        os.path.join(out, 'x__TOP', 'TOP_k25d_pex_netlist.spice'), 'TOP')
                    shutil.rmtree(out, ignore_errors=True)
            except (Exception, SystemExit) as e:
                run['crash'] = rec['crash'] = True
                run['error'] = rec['error'] = f'{type(e).__name__}: {e}'
            rec5['runs'].append(run)
            if not opts.get('engine'):
                rec7.append(rec)
    shutil.rmtree(d, ignore_errors=True)
    return rec5, rec7


def layouts(c, n, variants):
    rng = c.rng
    specs = []
    while len(specs) < n:
        pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
        lay = c_rext.generate(rng, pdk, rng.choice([0.4, 0.7]), rng.choice([0, 0, 1]), rng.choice([0.6, 1.0]))
        if not lay['wires'] or not c_rext.clean(lay):
            continue
        specs.append(dict(i=len(specs), pdk=pdk, lay=lay, scratch=c.scratch, runs=variants(rng)))
    return specs


def O(mode='', halo=-1, scale='', blackbox='', engine=False):
    return dict(mode=mode, halo=halo, scale=scale, blackbox=blackbox, engine=engine)


def main_modes(c):
    c.model('Pex25Model', 'SPECIFICATION Spec\nCONSTANTS Values = {1, 2}\n MaxRuns = 1\nINVARIANTS Combined DefaultsAreNeutral Gated\nCHECK_DEADLOCK FALSE\n')
    if c.thorough:
        c.model('Pex25Model', 'SPECIFICATION Spec\nCONSTANTS Values = {1, 2}\n MaxRuns = 2\nINVARIANTS Combined DefaultsAreNeutral Gated\nCHECK_DEADLOCK FALSE\n')

    def variants(rng):
        h = rng.choice([1000, 2000, 3500, 12000, 0])
        sc = rng.choice(['true', 'True', 'TRUE']).lower()
        bb = rng.choice(['', 'true', 'false'])
        v = [O(), O('CC', blackbox=bb), O('R', blackbox=bb), O('RC', blackbox=bb), O('CC', h), O('RC', h, sc), O('CC', h, 'false'),
             O('CC', 8000, 'true'), O('R', h, 'false'),
             O('CC', engine=True), O('R', engine=True), O('CC', h, engine=True), O('RC', h, 'false', engine=True)]
        first = v.pop(rng.randrange(len(v)))
        rng.shuffle(v)
        return [first] + v
    specs = layouts(c, c.n(20, 200), variants)
    with c.pool() as pool:
        recs = [r for r, _ in pool.imap(job, specs)]
    c.cov['runs'] = sum(len(r['runs']) for r in recs)
    c.sample(dict(halo=recs[0]['halo'], runs=recs[0]['runs'][:3]))
    c.validate('Pex25Trace', recs, shards=4,
               describe=lambda i, cl: f"{specs[i]['pdk']} layout {i}: {cl} {[x.get('error') for x in recs[i]['runs'] if x['crash']]}")


def dev_str(d):
    dc = d.device_class()
    t = ','.join(f"{x.name}={d.net_for_terminal(x.id()).expanded_name() if d.net_for_terminal(x.id()) else '-'}" for x in dc.terminal_definitions())
    p = ','.join(f'{x.name}={d.parameter(x.id()):.12g}' for x in dc.parameter_definitions())
    return f'{type(dc).__name__} {dc.name} {d.expanded_name()} {t} {p}'


CLASSES = ['DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk', 'DeviceClassResistor', 'DeviceClassResistorWithBulk',
           'DeviceClassMOS4Transistor', 'DeviceClassMOS3Transistor', 'DeviceClassDiode', 'DeviceClassBJT3Transistor',
           'DeviceClassBJT4Transistor', 'DeviceClassInductor']


def make_netlist(rng, netnames, ndev=None):
    nl = kdb.Netlist()
    classes = []
    for cn in CLASSES:
        dc = getattr(kdb, cn)()
        dc.name = 'dev_' + cn[11:].lower() if rng.random() < 0.7 else {'DeviceClassCapacitor': 'C', 'DeviceClassResistor': 'R'}.get(cn, cn)
        nl.add(dc)
        classes.append(dc)
    if rng.random() < 0.3:      # other circuits come along
        o = kdb.Circuit()
        o.name = 'OTHER'
        nl.add(o)
        o.create_net('A')
        o.create_device(classes[0], 'cx').set_parameter('C', 1e-15)
    top = kdb.Circuit()
    top.name = 'TOP'
    nl.add(top)
    nets = []
    for k, n in enumerate(netnames):
        nets.append(top.create_net(None if n.startswith('$') else n))
        nets[-1].cluster_id = k + 1      # as extracted: nets without a name are called $<id>
    for k, n in enumerate(nets):
        if rng.random() < 0.4 and n.name:
            p = top.create_pin(n.name)
            top.connect_pin(p, n)
    for k in range(rng.randint(0, 6) if ndev is None else ndev):
        dc = rng.choice(classes[:2] * 3 + classes)
        d = top.create_device(dc, rng.choice([f'd{k}', None, f'X{k}']))
        for t in dc.terminal_definitions():
            if rng.random() < 0.95:
                d.connect_terminal(t.id(), rng.choice(nets))
        for p in dc.parameter_definitions():
            if p.name in ('C', 'R', 'W', 'L'):
                d.set_parameter(p.id(), rng.randint(1, 9) * 1e-15)
    return nl


def is_cap(d):
    return type(d.device_class()).__name__.startswith('DeviceClassCapacitor')


def job_exp(spec):
    quiet_log()
    rng = random.Random(spec['rs'])
    rec = dict(crash=False, caps=[], res=[], csv=[], hascsv=False, devs=[], orig=[], others=[], pins=[], origpins=[], nets=[],
               orignets=[], hasnets=True, blackbox=spec['blackbox'])
    nl = make_netlist(rng, spec['netnames'])
    top = nl.circuit_by_name('TOP')
    rec['orig'] = [dict(s=dev_str(d), cap=is_cap(d)) for d in top.each_device()]
    rec['orignets'] = [n.expanded_name() for n in top.each_net()]
    rec['origpins'] = [f'{p.expanded_name()}={top.net_for_pin(p.id()).expanded_name()}' for p in top.each_pin()]
    before = nl.to_s()
    try:
        from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
        er = c_summary.build_results(spec['cells'])
        rec.update(summary_record(er.summarize()))
        out = RCX25NetlistExpander().expand(extracted_netlist=nl, top_cell_name='TOP', extraction_results=er,
                                          blackbox_devices=spec['blackbox'])
        if nl.to_s() != before:
            raise Exception('input netlist modified')
        top = out.circuit_by_name('TOP')
        orig = [x['s'] for x in rec['orig']]
        for d in top.each_device():
            n = d.device_class().name
            s = dev_str(d)
            if n in ('C', 'R') and s not in orig:
                a, b = d.net_for_terminal('A'), d.net_for_terminal('B')
                rec['devs'].append(dict(t=n, name=d.name, a=a.expanded_name(), b=b.expanded_name(),
                                        g=sig(d.parameter(n))))
            else:
                rec['others'].append(s)
        rec['nets'] = [n.expanded_name() for n in top.each_net()]
        rec['pins'] = [f'{p.expanded_name()}={top.net_for_pin(p.id()).expanded_name()}' for p in top.each_pin()]
    except Exception as e:
        rec['crash'] = True
        rec['error'] = f'{type(e).__name__}: {e}'
    return rec


def main_out(c):
    def variants(rng):
        return [O(rng.choice(['CC', 'RC', 'RC', 'R', '']), blackbox=rng.choice(['', 'true']))]
    specs = layouts(c, c.n(150, 1500), variants)
    rng = c.rng
    exps = []
    for _ in range(c.n(2000, 20000)):
        names = rng.sample(c_summary.NETS, rng.randint(2, 7))
        names = [n for n in names if not n.startswith('$') and n != 'n.$0.6'] or ['A', 'B']
        anon = rng.randint(0, 2)
        netnames = names + ['$'] * anon
        rng.shuffle(netnames)
        real = ['$%d' % (i + 1) if n == '$' else n for i, n in enumerate(netnames)]
        if rng.random() < 0.2:
            real = real + ['VSUBS']
        if len(set(real)) < 2:
            real += ['Q']
        cells = c_summary.gen_cells(rng, ncells=1, nets=list(dict.fromkeys(real)))
        cells = {'TOP': list(cells.values())[0]}
        exps.append(dict(netnames=netnames + (['FC_GND'] if rng.random() < 0.1 else []), cells=cells, rs=rng.random(),
                         blackbox=rng.random() < 0.5))
    with c.pool() as pool:
        r7 = [r for _, rs in pool.imap(job, specs) for r in rs]
        rexp = pool.map(job_exp, exps, chunksize=20)
    recs = r7 + rexp
    c.cov['command_line_runs'] = len(r7)
    c.cov['expanded_netlists'] = len(rexp)
    c.sample(rexp[0])
    c.validate('Out25Trace', recs, describe=lambda i, cl: f"{'run' if i < len(r7) else 'netlist'} {i}: {cl} {recs[i].get('error', '')}")
