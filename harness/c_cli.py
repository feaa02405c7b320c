"""C10: what a command line means: accepted or rejected, chosen cell, what LVS and MAGIC get."""
import csv
import json
import os
import random
import shutil
import klayout.db as kdb
from vlib import quiet_log, NPROC
from layout_lib import build_l2n, SKY_METALS, IHP_METALS
import c_engines
import magic_tool

KLAYOUT = r'''#!/opt/venv/bin/python
import sys, shutil, json
d = %(d)r
open(d + '/calls', 'a').write('lvs\n')
a = dict(x.split('=', 1) for x in sys.argv[1:] if '=' in x)
json.dump(a, open(d + '/lvs_args', 'w'))
shutil.copy(a['input'], d + '/lvs_input')
if 'schematic' in a: shutil.copy(a['schematic'], d + '/lvs_schematic')
import klayout.db as kdb
ly = kdb.Layout(); ly.read(a['input'])
tops = ly.top_cells()
if len(tops) == 1: shutil.copy(d + '/lvsdb_' + open(d + '/pdk').read() + '_' + tops[0].name, a['report'])
'''
FASTCAP = '#!/bin/bash\necho fastcap >> "%(d)s/calls"\nexit 0\n'
NAMES = ['A', 'B', 'C', 'cell_x', 'inv$1']


def write_layout(path, cells, dbu):
    ly = kdb.Layout()
    ly.dbu = dbu
    m = ly.layer(67, 20)
    cc = {x['name']: ly.create_cell(x['name']) for x in cells}
    for x in cells:
        cc[x['name']].shapes(m).insert(kdb.Box(0, 0, 1000 + x['mark'], 200))
        for j, kid in enumerate(x['kids']):
            cc[x['name']].insert(kdb.CellInstArray(cc[kid].cell_index(), kdb.Trans(0, 1000 * (j + 1))))
    opt = kdb.SaveLayoutOptions()
    opt.set_format_from_filename(path)
    ly.write(path, opt)


def read_layout(path, cell):
    if not os.path.exists(path):
        return dict(got=False, cell='', cells=[], tops=[])
    ly = kdb.Layout()
    ly.read(path)
    res = []
    for c in ly.each_cell():
        marks = [s.bbox().right - 1000 for li in ly.layer_indexes() for s in c.shapes(li).each() if not s.is_text()]
        res.append(dict(name=c.name, mark=marks[0] if len(marks) == 1 else -1,
                        kids=sorted(ly.cell(i).name for i in c.each_child_cell())))
    return dict(got=True, cell=cell, cells=res, tops=sorted(t.name for t in ly.top_cells()))


def job(spec):
    i, d, runs = spec
    import rcx
    quiet_log()
    from klayout_pex.kpex_cli import KpexCLI
    rng = random.Random(i * 7 + 1)
    os.makedirs(d)
    c_engines.make_tools(d)
    with open(d + '/control', 'w') as f:
        f.write('TAG=1\nLVS=ok\nFC=ok\nMAG=ok\n')
    for name, txt in (('klayout', KLAYOUT), ('fastcap', FASTCAP)):
        with open(f'{d}/{name}', 'w') as f:
            f.write(txt % dict(d=d))
        os.chmod(f'{d}/{name}', 0o755)
    for pdk, metals in (('sky130A', SKY_METALS), ('ihp_sg13g2', IHP_METALS)):
        for n in NAMES + ['D']:
            l2n = build_l2n([(2, 'A1', kdb.Box(0, 0, 3000, 200)), (2, 'B1', kdb.Box(0, 400, 3000, 600)),
                             (2, 'T_' + n, kdb.Box(0, 800, 3000, 1000))], lvs=True, cell=n, metals=metals, via_layers=(), sub='Sub' if n == 'D' else None)
            cir = l2n.netlist().circuit_by_name(n)
            for net in list(cir.each_net()):
                cir.connect_pin(cir.create_pin(net.name), net)
            l2n.write(f'{d}/lvsdb_{pdk}_{n}')
    path0 = os.environ.get('PATH', '')
    ans = []
    os.chdir(d)
    with rcx.Silence():
        for k, r in enumerate(runs):
            for f in ('calls', 'lvs_input', 'lvs_schematic', 'magic_input', 'magic_cmds', 'lvs_args'):
                if os.path.exists(f):
                    os.remove(f)
            w = f'{d}/w{k}'
            os.makedirs(w)
            suffix = rng.choice(['.gds', '.gds.gz', '.oas'])
            pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
            with open('pdk', 'w') as f:
                f.write(pdk)
            gds = f"{w}/{r['base'] if r['gds'] != 'none' else 'x'}{suffix}"
            lv = f"{w}/{r['base']}.lvsdb{rng.choice(['', '.gz'])}"
            if r['gds'] == 'ok':
                write_layout(gds, r['cells'], rng.choice([0.001, 0.005]))
            elif r['gds'] == 'missing' and rng.random() < 0.3:
                os.makedirs(gds)
            elif r['gds'] == 'corrupt':
                with open(gds, 'wb') as f:
                    f.write(b'\x00\x06\x00\x02garbage' * 20)
            if r['lvsdb'] == 'ok':
                shutil.copy(f'{d}/lvsdb_{pdk}_D', lv)
            elif r['lvsdb'] == 'missing' and rng.random() < 0.3:
                os.makedirs(lv)
            elif r['lvsdb'] == 'corrupt':
                with open(lv, 'w') as f:
                    f.write(rng.choice(['', 'garbage(\n' * 5]))
            if r['schem'] == 'ok':
                with open(f'{w}/s.spice', 'w') as f:
                    f.write(f'.subckt GIVEN {k}\n.ends\n')
            elif r['schem'] == 'missing' and rng.random() < 0.3:
                os.makedirs(f'{w}/s.spice')
            for v in ('PDKPATH', 'PDK'):
                os.environ.pop(v, None)
            argv = ['kpex']
            opts = []
            if r['rc']:
                if rng.random() < 0.5:
                    os.environ['PDKPATH'], os.environ['PDK'] = d, 'sky130A'
                else:
                    opts.append(['--magicrc', f'{d}/my.magicrc'])
            elif rng.random() < 0.3:
                os.environ[rng.choice(['PDKPATH', 'PDK'])] = 'x'
            if r['pdk'] == 'ok' or rng.random() < 0.5:
                opts.append(['--pdk', pdk if r['pdk'] == 'ok' else 'sky130'])
            flag = dict(magic='--magic', fc='--fastercap', fastcap='--fastcap', k25='--2.5D')
            opts += [[flag[e]] for e in r['engines']]
            rel = rng.random() < 0.5

            def p(x):
                return os.path.relpath(x, d) if rel else x
            if r['gds'] != 'none':
                opts.append([rng.choice(['--gds', '-g']), '' if r['gds'] == 'empty' else p(gds)])
            if r['lvsdb'] != 'none':
                opts.append([rng.choice(['--lvsdb', '-l']), p(lv)])
            if r['cell'] or rng.random() < 0.2:
                opts.append(['--cell', r['cell']])
            if r['schem'] != 'none':
                opts.append(['--schematic', p(f'{w}/s.spice')])
            if r['level'] == 'bad':
                opts.append(['--log_level', 'loud'])
            else:
                opts.append(['--log_level', rng.choice(['critical', 'ERROR', 'Critical'])])
            if r['diel'] == 'bad':
                opts.append(['--diel', rng.choice(['all,none', 'all,+ild1', 'none,-ild2,+x', 'none,all,-x'])])
            elif rng.random() < 0.5:
                opts.append(['--diel', rng.choice(['all', 'none', 'all,-ild1', 'none,+ild1'])])
            if r['word'] == 'bad':
                opts.append(rng.choice([['--blackbox', 'maybe'], ['--scale', '2'], ['--cache-lvs', ''], ['--mode', 'XY'], ['--halo', 'far'],
                                        ['--magic_mode', 'CR'], ['--magic_short', 'yes'], ['--tolerance', 'low'], ['--threads', '1.5'],
                                        ['--unknown'], ['positional']]))
            elif rng.random() < 0.5:
                opts.append(rng.choice([['--blackbox', 'no'], ['--scale', '1'], ['--cache-lvs', '0'], ['--mode', 'CC'], ['--halo', '2']]))
            opts.append(['--out_dir', p(f'{w}/out')])
            rng.shuffle(opts)
            argv += [x for o in opts for x in o]
            os.environ['PATH'] = path0
            os.environ['KPEX_FASTERCAP_EXE'] = f'{d}/FasterCap'
            os.environ['KPEX_FASTCAP_EXE'] = f'{d}/fastcap'
            os.environ['KPEX_MAGIC_EXE'] = f'{d}/magic'
            if r['klayout'] == 'name':
                os.environ['PATH'] = d + ':' + path0
                os.environ.pop('KPEX_KLAYOUT_EXE', None)
            else:
                os.environ['KPEX_KLAYOUT_EXE'] = f'{d}/klayout' if r['klayout'] == 'file' else rng.choice([f'{d}/klayout_not', 'klayout_not', d])
            if r['stale']:
                os.makedirs(f"{w}/out/{r['stem']}__{r['stale']}")
                write_layout(f"{w}/out/{r['stem']}__{r['stale']}/{r['stale']}_exported.gds.gz", [dict(name='OLD', mark=99, kids=[])], 0.001)
            a = dict(outcome='done', called=[], schem='none', made=[], net='')
            try:
                KpexCLI().main(argv)
            except SystemExit as x:
                a['outcome'] = {1: 'exit1', 2: 'exit2'}.get(x.code, 'error')
            except Exception as x:
                a['outcome'] = 'error'
                a['error'] = f'{type(x).__name__}: {str(x)[:200]}'
            finally:
                c_engines.drop_handlers()
            os.environ['PATH'] = path0
            if os.path.exists('calls'):
                a['called'] = open('calls').read().split()
            a['lvs'] = read_layout('lvs_input', '')
            mcell = ''
            if os.path.exists('magic_cmds'):
                mcell = next((w[1] for w in magic_tool.commands(d) if w[0] == 'load'), '?')
            a['magic'] = read_layout('magic_input', mcell)
            if os.path.exists('lvs_schematic'):
                t = open('lvs_schematic').read().split()
                a['schem'] = ('given' if t[:3] == ['.subckt', 'GIVEN', str(k)] else
                              'dummy:' + t[1] if t and t[0].lower() == '.subckt' else '?')
            if os.path.isdir(f'{w}/out'):
                a['made'] = sorted(x for x in os.listdir(f'{w}/out') if os.path.isdir(f'{w}/out/{x}') and not x.startswith('.'))
            nets = set()
            for root, _, files in os.walk(f'{w}/out'):
                for f in files:
                    if f.endswith('_k25d_pex_netlist.csv'):
                        for row in csv.reader(open(os.path.join(root, f), encoding='utf-8'), delimiter=';'):
                            nets |= {x[2:] for x in row[1:3] if x.startswith('T_')}
            a['net'] = ','.join(sorted(nets))
            r['argv'] = argv
            ans.append(a)
            shutil.rmtree(w, ignore_errors=True)
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    return dict(runs=runs, ans=ans)


def main(c):
    inv = 'Agrees Closed MagicNeedsGds'
    c.model('CliModel', f'SPECIFICATION Spec\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng

    def layout():
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        names = rng.sample(NAMES, n)
        return [dict(name=x, mark=rng.randint(1, 50), kids=sorted({y for y in names[j + 1:] if rng.random() < 0.5}))
                for j, x in enumerate(names)]

    def run(slips):
        r = dict(engines=[], gds='ok', lvsdb='none', cells=[], dcell='D', cell='', schem='none', pdk='ok', word='ok', level='ok', diel='ok',
                 klayout=rng.choice(['file', 'name']), rc=True, stem='', stale='')
        while not r['engines']:
            r['engines'] = [e for e, q in (('magic', .4), ('fc', .25), ('fastcap', .1), ('k25', .7)) if rng.random() < q]
        if rng.random() < 0.25:
            r['gds'] = 'none'
            r['lvsdb'] = 'ok'
            r['engines'] = [e for e in r['engines'] if e != 'magic'] or ['k25']
        elif rng.random() < 0.2:
            r['lvsdb'] = rng.choice(['ok', 'missing', 'corrupt'])
        if rng.random() < 0.3:
            r['schem'] = 'ok'
        r['cells'] = layout()
        while not r['cells']:
            r['cells'] = layout()
        names = {x['name'] for x in r['cells']}
        tops = names - {y for x in r['cells'] for y in x['kids']}
        if len(tops) > 1 or rng.random() < 0.6:
            r['cell'] = rng.choice(sorted(names))
        for _ in range(slips):
            s = rng.choice(['engines', 'gds', 'gds', 'lvsdb', 'cell', 'cell', 'tops', 'schem', 'pdk', 'word', 'level', 'diel', 'klayout', 'rc', 'input'])
            if s == 'engines':
                r['engines'] = []
            elif s == 'gds':
                r['gds'] = rng.choice(['none', 'empty', 'missing', 'corrupt'])
            elif s == 'lvsdb':
                r['lvsdb'] = rng.choice(['none', 'missing', 'corrupt'])
                if rng.random() < 0.5:
                    r['gds'] = 'none'
            elif s == 'input':
                r['gds'], r['lvsdb'] = rng.choice(['none', 'empty']), 'none'
            elif s == 'cell':
                r['cell'] = rng.choice(['X', 'a', 'D', 'A*', 'TOP'])
            elif s == 'tops':
                r['cells'], r['cell'] = layout(), ''
            elif s == 'schem':
                r['schem'] = 'missing'
            elif s == 'rc':
                r['rc'] = False
            elif s == 'klayout':
                r['klayout'] = 'missing'
            else:
                r[s] = 'bad'
        r['stem'] = rng.choice(['chip', 'x_y', 'Z-1']) if r['gds'] not in ('none', 'empty') else 'prev'
        r['base'] = r['stem'] + rng.choice(['', '', '', '.v1', '.2.final', '.gds'])
        if rng.random() < 0.3 and r['cell'] and r['cell'] in names:
            r['stale'] = r['cell'] if r['gds'] == 'ok' else ''
        return r
    specs = [(i, os.path.join(c.scratch, f'i{i}'), [run(rng.choice([0, 0, 0, 1, 1, 2])) for _ in range(8)]) for i in range(c.n(100, 900))]
    with c.pool() as pool:
        recs = list(pool.imap(job, specs))
    flat = [dict(runs=[r], ans=[a]) for rec in recs for r, a in zip(rec['runs'], rec['ans'])]
    c.cov['command_lines'] = len(flat)
    c.cov['outcomes'] = {o: sum(x['ans'][0]['outcome'] == o for x in flat) for o in ('exit1', 'exit2', 'done', 'error')}
    c.sample(flat[0])

    def describe(i, cl):
        r, a = flat[i]['runs'][0], flat[i]['ans'][0]
        return f"{cl}: {' '.join(map(repr, r['argv']))}: {json.dumps([{k: v for k, v in r.items() if k != 'argv'}, a])[:2000]}"
    c.validate('CliTrace', flat, describe=describe)
