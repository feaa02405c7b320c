"""C22: the drawing of a netlist (netlist svg)"""
import json
import os
import random
import shutil
import stat
import sys
import klayout.db as kdb
from vlib import quiet_log

NETS = ['A', 'y', 'Vsubs', 'GND', 'VDD', 'a.b', 'n_1', 'x[0]', 'x[1]', 'y<3>', 'VDD!', 'a/b', 'c#', '0', '1n', '$5', 'a+b', 'n:1', 'A,B', 'A|B', 'VGND', 'gnd1', 'net1', 'net11', '1', '2']
ELEMS = ['1', '2', '10', 'a', 'Foo', 'x[0]', 'x[1]', 'x[2]', 'x<1>', 'n_1', '$1', '$2', 'ext_0_1', '1_2', '11', 'gnd']
MODELS = ['inv', 'nand2', 'sub', 'Inv_1', 'blk$1', 'c', 'inv1', 'inv11']
TOOL = '''#!/bin/sh
# stand-in for netlistsvg: records its arguments, keeps a copy of the JSON, writes the SVG
n=$(ls %(dir)s | grep -c '^call')
for a in "$@"; do printf '%%s\\n' "$a"; done > %(dir)s/call$n
for a in "$@"; do last="$a"; done
cp "$last" %(dir)s/json$n
echo "tool says %(word)s"
echo "more on stderr e%(word)s" >&2
if [ %(rc)d -ne 0 ]; then exit %(rc)d; fi
printf '<svg/>' > "$2"
'''


def value(rng, kind):
    """in 1/10 aF or 1/10 mOhm"""
    return rng.choice([rng.randrange(1, 100), rng.randrange(1, 100000), rng.randrange(1, 10 ** 8), 10 * rng.randrange(1, 10 ** 6), 10 ** rng.randrange(0, 8)])


def circuit(rng, name, models, upper):
    nets = rng.sample(NETS, rng.randint(1, 8))
    if upper:
        seen, keep = set(), []
        for n in nets:
            if n.upper() not in seen:
                seen.add(n.upper())
                keep.append(n)
        nets = keep
    ports = rng.sample(nets, rng.randint(0 if not upper else 1, len(nets)))
    rng.shuffle(ports)
    devs, used = [], set()
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        d = dict(kind=rng.choice('CR'), name=rng.choice(ELEMS), a=rng.choice(nets), b=rng.choice(nets))
        d['v'] = value(rng, d['kind'])
        if (d['kind'], d['name'].upper()) not in used:
            used.add((d['kind'], d['name'].upper()))
            devs.append(d)
    subs, used = [], set()
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        if not models:
            break
        m = rng.choice(models)
        s = dict(name=rng.choice(ELEMS), model=m[0], pins=[rng.choice(nets) for _ in range(m[1])])
        if s['name'].upper() not in used:
            used.add(s['name'].upper())
            s['unnamed'] = rng.random() < 0.3
            subs.append(s)
    return dict(name=name, ports=[dict(name=p, net=p) for p in ports], devs=devs, subs=subs)


def design(rng, upper):
    """several circuits, the leaves first"""
    names = rng.sample(MODELS, rng.randint(0, 3))
    if upper:
        names = list({n.upper(): n for n in names}.values())
    circs = []
    for n in names:
        c = circuit(rng, n, [(x['name'], len(x['ports'])) for x in circs if rng.random() < 0.6], upper)
        circs.append(c)
    for n in rng.choice([['top'], ['TOP_1'], ['chip$x'], ['top', 'top2'], ['a', 'b'], []]) if names else ['top']:
        circs.append(circuit(rng, n, [(x['name'], len(x['ports'])) for x in circs], upper))
    return circs


def tops(circs):
    used = {s['model'] for c in circs for s in c['subs']}
    return [c['name'] for c in circs if c['name'] not in used]


def spice(rng, circs):
    """text of the netlist; circuits in any order"""
    def num(kind, v):
        if kind == 'C':
            return rng.choice([lambda: '%.10g' % (v * 1e-19), lambda: '%.10gf' % (v / 10000), lambda: '%.10ga' % (v / 10), lambda: '%.9eF' % (v * 1e-19)][:3])()
        return rng.choice([lambda: '%.10g' % (v / 10000), lambda: '%.12gk' % (v / 1e7), lambda: '%.10gm' % (v / 10)])()

    def esc(s):
        return s.replace('$', '\\$') if rng.random() < 0.5 else s
    out = ['* netlist']
    order = list(circs)
    rng.shuffle(order)
    for c in order:
        lines = [f"{d['kind']}{d['name']} {esc(d['a'])} {esc(d['b'])} {num(d['kind'], d['v'])}" for d in c['devs']]
        lines += [f"X{s['name']} {' '.join(esc(n) for n in s['pins'])} {s['model']}" for s in c['subs']]
        rng.shuffle(lines)
        out += [f".SUBCKT {c['name']} {' '.join(esc(p['name']) for p in c['ports'])}"] + lines + [f".ENDS {c['name']}"]
    if rng.random() < 0.5:
        out.append('.END')
    return '\n'.join(out) + '\n'


def uppercase(c):
    """the SPICE reader makes names upper case"""
    u = str.upper
    return dict(name=u(c['name']), ports=[dict(name=u(p['name']), net=u(p['net'])) for p in c['ports']],
                devs=[dict(d, name=u(d['name']), a=u(d['a']), b=u(d['b'])) for d in c['devs']],
                subs=[dict(name=u(s['name']), model=u(s['model']), pins=[u(n) for n in s['pins']]) for s in c['subs']])


def by_hand(rng, circs):
    """a netlist made through the API (names are case sensitive, some are left out)"""
    nl = kdb.Netlist()
    nl.case_sensitive = True
    cc, rc = kdb.DeviceClassCapacitor(), kdb.DeviceClassResistor()
    cc.name, rc.name = rng.choice([('CAP', 'RES'), ('sky130_fd_pr__cap', 'rpoly')])
    nl.add(cc)
    nl.add(rc)
    made = {}
    for c in circs:
        k = kdb.Circuit()
        k.name = c['name']
        nl.add(k)
        made[c['name']] = k
        nets = {}
        cid = 100

        def net(n):
            nonlocal cid
            if n not in nets:
                x = k.create_net()
                cid += 1
                x.cluster_id = cid
                if n.startswith('$'):
                    x.cluster_id = int(n[1:])
                else:
                    x.name = n
                nets[n] = x
            return nets[n]
        for p in c['ports']:
            k.connect_pin(k.create_pin(p['name']), net(p['net']))
        todo = [('d', d) for d in c['devs']] + [('s', s) for s in c['subs']]
        for t, x in todo:
            if t == 'd':
                d = k.create_device(cc if x['kind'] == 'C' else rc)
                if x['name'].startswith('$') and f'${d.id()}' not in [y['name'] for y in c['devs'] if y is not x]:
                    x['name'] = f'${d.id()}'     # without a name
                else:
                    d.name = x['name']
                d.connect_terminal(0, net(x['a']))
                d.connect_terminal(1, net(x['b']))
                d.set_parameter('C' if x['kind'] == 'C' else 'R', x['v'] * 1e-19 if x['kind'] == 'C' else x['v'] * 1e-4)
            else:
                s = k.create_subcircuit(made[x['model']], x['name'])
                if (x['name'].startswith('$') or x.get('unnamed')) and f'${s.id()}' not in [y['name'] for y in c['subs'] if y is not x]:
                    x['name'] = f'${s.id()}'     # without a name
                    s.name = ''
                for i, n in enumerate(x['pins']):
                    s.connect_pin(i, net(n))
    return nl


def thousandths(s, unit):
    if not isinstance(s, str) or not s.endswith(unit):
        raise ValueError(s)
    v = float(s[:len(s) - len(unit)] if unit else s)
    if abs(v * 1000 - round(v * 1000)) > 1e-3 * max(1, abs(v) * 1e-6):
        raise ValueError(s)
    return min(int(round(v * 1000)), 2 ** 27)


def read_drawing(doc):
    mods = list(doc['modules'])
    m = doc['modules'][mods[0]]
    cells = []
    for key, x in m['cells'].items():
        text, v = '', 0
        val = x.get('attributes', {}).get('value')
        if x['type'] == 'gnd':
            text = val
        elif x['type'] in ('c_v', 'r_v'):
            v = thousandths(val, 'f' if x['type'] == 'c_v' else '')
        cells.append(dict(key=key, type=x['type'], v=v, text=text, conns=[dict(pin=p, bits=b) for p, b in x['connections'].items()]))
    return dict(mods=mods, ports=[dict(name=p, bits=x['bits']) for p, x in m['ports'].items()], cells=cells)


EMPTY = dict(mods=[], ports=[], cells=[])


def draw_job(spec):
    from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
    rng = random.Random(spec['seed'])
    hand = rng.random() < 0.5
    circs = design(rng, not hand)
    if hand:
        nl = by_hand(rng, circs)
        c = rng.choice(circs)
    else:
        path = os.path.join(spec['scratch'], f"n{spec['no']}.spice")
        with open(path, 'w') as f:
            f.write(spice(rng, circs))
        nl = kdb.Netlist()
        nl.read(path, kdb.NetlistSpiceReader())
        os.unlink(path)
        c = uppercase(rng.choice(circs))
    rec = dict(kind='draw', c=c, d=EMPTY, crash=False, again=True)
    try:
        quiet_log()
        top = next(k for k in nl.each_circuit() if k.name == c['name'])
        first = NetlistJSONWriter().netlist_json_dict(netlist=nl, top_circuit=top)
        out = os.path.join(spec['scratch'], f"d{spec['no']}.json")
        NetlistJSONWriter().write_json(netlist=nl, top_circuit=top, output_path=out)
        with open(out, encoding='utf-8') as f:
            rec['again'] = json.load(f) == json.loads(json.dumps(first))
        os.unlink(out)
        rec['d'] = read_drawing(first)
    except Exception as e:
        rec['crash'], rec['error'] = True, f'{type(e).__name__}: {e}'
    return rec


def run_job(spec):
    import rcx
    import webbrowser
    from klayout_pex.netlist.netlist_cli import NetlistCLI
    rng = random.Random(spec['seed'])
    circs = design(rng, True)
    base = os.path.join(spec['scratch'], f"r{spec['no']}")
    cwd = os.path.join(base, rng.choice(['cwd', 'my run']))
    tool_dir = os.path.join(base, 'tool')
    for d in (cwd, tool_dir):
        os.makedirs(d)
    fname = rng.choice(['n.spice', 'top.cir', 'my netlist.spice', 'a.b.c', 'N'])
    path = os.path.join(base, rng.choice(['', 'in']), fname)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    exists = rng.random() > 0.06
    if exists:
        with open(path, 'w') as f:
            f.write(spice(rng, circs))
    exe = rng.choice(['ok'] * 8 + ['fails', 'missing'])
    word = f'w{rng.randrange(10 ** 6)}'
    exe_path = os.path.join(base, rng.choice(['nsvg', 'netlistsvg', 'my tool']))
    if exe != 'missing':
        with open(exe_path, 'w') as f:
            f.write(TOOL % dict(dir=tool_dir, word=word, rc=0 if exe == 'ok' else rng.choice([1, 3, 127])))
        os.chmod(exe_path, 0o755)
    on_path = rng.random() < 0.2
    ups = [c['name'].upper() for c in circs]
    want = rng.choice(['', '', rng.choice(circs)['name'], rng.choice(tops(circs)), rng.choice(circs)['name'].lower(), 'nosuch', rng.choice(circs)['name'] + 'x'])
    rq = dict(circs=[dict(name=c['name'].upper(), top=c['name'] in tops(circs)) for c in circs], want=want.upper(), exe=exe, input=exists,
              preview=rng.random() < 0.15)
    argv = ['netlist', 'svg', path if rng.random() < 0.5 else os.path.relpath(path, cwd), '--exe', os.path.basename(exe_path) if on_path else exe_path]
    if want:
        argv += [rng.choice(['--cell', '-c']), want]
    out = rng.choice(['', '', 'o.svg', 'my drawing.svg', os.path.join(base, 'abs.svg')])
    if out:
        argv += [rng.choice(['--output', '-o']), out]
    if rq['preview']:
        argv += [rng.choice(['--preview', '-p'])]
    el = [i for i, c in enumerate(rq['circs']) if (c['top'] if not want else c['name'] == want.upper())]
    cell = uppercase(circs[el[0]]) if len(el) == 1 else dict(name='', ports=[], devs=[], subs=[])
    run_dir = os.path.join(cwd, 'netlist_run', cell['name'].lower())
    want_out = os.path.join(cwd, out) if out else os.path.join(run_dir, fname + '.svg')
    shown = []
    end = 'ok'
    old, old_path, old_open, old_argv = os.getcwd(), os.environ['PATH'], webbrowser.open, sys.argv
    os.chdir(cwd)
    webbrowser.open = lambda url, *a, **k: shown.append(url) or True
    if on_path:
        os.environ['PATH'] = base + ':' + old_path
    sys.argv = argv
    error = ''
    try:
        with rcx.Silence():
            NetlistCLI().main(argv)
    except SystemExit as e:
        end = 'ok' if e.code in (0, None) else 'error'
        error = f'exit {e.code}'
    except Exception as e:
        end = 'error'
        error = f'{type(e).__name__}: {e}'
    finally:
        os.chdir(old)
        os.environ['PATH'] = old_path
        webbrowser.open = old_open
        sys.argv = old_argv
    calls = sorted(f for f in os.listdir(tool_dir) if f.startswith('call'))
    rec = dict(kind='run', rq=rq, c=cell, d=EMPTY, crash=False, again=True, error=error, argv=argv,
               obs=dict(end=end, calls=len(calls), out='', outWanted=want_out, skin=False, extra=False, log=False,
                        svg=os.path.isfile(want_out) and open(want_out).read() == '<svg/>',
                        shown=bool(shown)))
    if len(calls) == 1:
        o = rec['obs']
        args = open(os.path.join(tool_dir, calls[0])).read().split('\n')[:-1]
        try:
            rec['d'] = read_drawing(json.load(open(os.path.join(tool_dir, calls[0].replace('call', 'json')))))
        except Exception as e:
            rec['error'] += f' {type(e).__name__}: {e}'
        if args[0] == '-o':
            o['out'] = os.path.normpath(os.path.join(cwd, args[1]))
        if '--skin' in args:
            skin = args[args.index('--skin') + 1]
            o['skin'] = os.path.isfile(skin) and skin.endswith('.svg') and 'r_v' in open(skin).read()
        o['extra'] = len(args) != 5
        for root, _, files in os.walk(os.path.join(cwd, 'netlist_run')):
            for f in files:
                if f.endswith('.txt') and {f'tool says {word}', f'more on stderr e{word}'} <= set(open(os.path.join(root, f)).read().split('\n')):
                    o['log'] = True
        if shown and shown != ['file://' + want_out]:
            o['shown'] = not rq['preview'] or exe != 'ok'
    shutil.rmtree(base)
    return rec


def main(c):
    for p, d, s in c.n([(1, 1, 2)], [(1, 1, 2), (0, 2, 1), (2, 1, 1)]):
        for by in ('instance', 'circuit'):
            c.model('DrawModel', f'SPECIFICATION Spec\nCONSTANTS NetNames = {{"A", "VSUBS"}}\n MaxPorts = {p}\n MaxDevs = {d}\n MaxSubs = {s}\n KeyBy = "{by}"\n'
                    f'INVARIANTS {"Complete" if by == "instance" else "Lost"}\n{"PROPERTIES Ends" if by == "instance" else ""}\nCHECK_DEADLOCK FALSE\n')
    c.model('DrawRunModel', 'SPECIFICATION Spec\nCONSTANTS Names = {"A", "B", "C"}\nINVARIANTS DrawnIfAsked\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n')
    n, m = c.n((600, 160), (8000, 2000))
    with c.pool() as pool:
        recs = pool.map(draw_job, [dict(seed=c.rng.random(), no=i, scratch=c.scratch) for i in range(n)], chunksize=8)
        recs += pool.map(run_job, [dict(seed=c.rng.random(), no=i, scratch=c.scratch) for i in range(m)], chunksize=4)
    c.cov['drawings'] = n
    c.cov['runs'] = m
    c.cov['runs_drawn'] = sum(1 for r in recs if r['kind'] == 'run' and r['obs']['calls'] == 1)
    c.cov['instances'] = sum(len(r['c']['subs']) for r in recs)
    c.cov['devices'] = sum(len(r['c']['devs']) for r in recs)
    c.sample(recs[1])
    c.validate('DrawTrace', recs, what='drawing', describe=lambda i, cl: f"{recs[i]['kind']}: {cl} {recs[i].get('error', '')} {' '.join(recs[i].get('argv', []))}")
