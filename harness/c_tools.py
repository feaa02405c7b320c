"""C17: the command lines and scripts that the external tools get."""
import json
import os
import random
import re
import shutil
from decimal import Decimal
import klayout.db as kdb
from vlib import quiet_log
from layout_lib import build_l2n, SKY_METALS, IHP_METALS
import c_engines
import magic_tool

RECORDER = r'''#!/usr/bin/python3
import sys, json, os, shutil
d, name = %(d)r, %(name)r
open(d + '/calls', 'a').write(name + '\n')
json.dump(dict(args=sys.argv[1:], cwd=os.getcwd(), threads=os.environ.get('OMP_NUM_THREADS', '')), open(d + '/args_' + name, 'w'))
if name == 'lvs':
    a = dict(x.split('=', 1) for x in sys.argv[1:] if '=' in x)
    shutil.copy(d + '/lvsdb', a['report'])
    for k in ('input', 'schematic'): shutil.copy(a[k], d + '/lvs_' + k)
'''
NUMBER = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$')


def dec(txt):
    if not NUMBER.match(txt):
        return []
    x = Decimal(txt).normalize()
    sign, digits, exp = x.as_tuple()
    if len(digits) > 9:
        return [-999, 99]
    m = int(''.join(map(str, digits)))
    return [-m if sign else m, exp if m else 0]


def flags(args):
    res = []
    for a in args:
        m = re.match(r'-(l)(.+)$', a, re.S) or re.match(r'-([a-z]+)(.*)$', a, re.S)
        if m and (m.group(1) == 'l' or not m.group(2) or NUMBER.match(m.group(2))):
            res.append(dict(f=m.group(1), n=[] if m.group(1) == 'l' else dec(m.group(2)), w=m.group(2) if m.group(1) == 'l' else ''))
        else:
            res.append(dict(f='', n=[], w=a))
    return res


def same(a, b):
    try:
        return os.path.samefile(a, b)
    except OSError:
        return False


def is_list(path, run_dir):
    """the list file of this run, and the geometry files are found beside it"""
    if not (os.path.isfile(path) and os.path.realpath(path).startswith(os.path.realpath(run_dir) + os.sep)):
        return False
    files = [ln.split()[1] for ln in open(path, encoding='utf-8') if ln[:2] in ('C ', 'D ')]
    return bool(files) and all(os.path.isfile(os.path.join(os.path.dirname(path), f)) for f in files)


def box_of(path, cell):
    """position of the shape of the cell: tells layouts and cells apart"""
    try:
        ly = kdb.Layout()
        ly.read(path)
        tops = ly.top_cells()
        return tops[0].bbox().width() if len(tops) == 1 and tops[0].name == cell else 0
    except Exception:
        return 0


def job(spec):
    i, d, runs = spec
    import rcx
    quiet_log()
    from klayout_pex.kpex_cli import KpexCLI
    rng = random.Random(i * 31 + 5)
    os.makedirs(d)
    magic_tool.write(d)
    for name in ('lvs', 'fc', 'fastcap'):
        with open(f'{d}/{name}', 'w') as f:
            f.write(RECORDER % dict(d=d, name=name))
        os.chmod(f'{d}/{name}', 0o755)
    os.environ.update(KPEX_KLAYOUT_EXE=f'{d}/lvs', KPEX_FASTERCAP_EXE=f'{d}/fc', KPEX_FASTCAP_EXE=f'{d}/fastcap', KPEX_MAGIC_EXE=f'{d}/magic')
    recs = []
    os.chdir(d)
    with rcx.Silence():
        for k, r in enumerate(runs):
            for f in ('calls', 'lvsdb', 'magic_cmds', 'magic_input', 'args_lvs', 'args_fc', 'args_fastcap', 'lvs_input', 'lvs_schematic'):
                if os.path.exists(f):
                    os.remove(f)
            o = r['o']
            w = os.path.join(d, r['dirname'])
            os.makedirs(w)
            gds = os.path.join(w, r['stem'] + r['suffix'])
            ly = kdb.Layout()
            m = ly.layer(67, 20)
            width = 1000 + k
            kid = ly.create_cell('kid$1')
            kid.shapes(m).insert(kdb.Box(0, 0, 500, 200))
            t = ly.create_cell(o['cell'])
            t.shapes(m).insert(kdb.Box(0, 0, width, 200))
            t.insert(kdb.CellInstArray(kid.cell_index(), kdb.Trans(0, 400)))
            if r['other']:
                ly.create_cell('OTHER').shapes(m).insert(kdb.Box(0, 0, 77, 200))
            opt = kdb.SaveLayoutOptions()
            opt.set_format_from_filename(gds)
            ly.write(gds, opt)
            ly = kdb.Layout()
            ly.read(gds)   # (some characters are replaced in files)
            o['cell'] = next(t.name for t in ly.top_cells() if t.bbox().width() == width)
            metals = SKY_METALS if r['pdk'] == 'sky130A' else IHP_METALS
            l2n = build_l2n([(2, 'A', kdb.Box(0, 0, 3000, 200)), (2, 'B', kdb.Box(0, 400, 3000, 600))], lvs=True, cell=o['cell'], metals=metals, via_layers=())
            l2n.write(f'{d}/lvsdb')
            schem = os.path.join(w, 'my schematic.spice')
            with open(schem, 'w') as f:
                f.write(f'.subckt GIVEN {k}\n.ends\n')

            def p(x):
                return os.path.relpath(x, d) if r['rel'] else x
            rc = os.path.join(d, 'my.magicrc')
            for v in ('PDKPATH', 'PDK'):
                os.environ.pop(v, None)
            if r['rcenv']:
                os.environ['PDKPATH'], os.environ['PDK'] = d, 'sky130A'
                rc = os.path.join(d, 'libs.tech/magic/sky130A.magicrc')
                os.makedirs(os.path.dirname(rc), exist_ok=True)
            open(rc, 'w').close()
            opts = [['--pdk', r['pdk']], ['--gds', p(gds)], ['--out_dir', p(os.path.join(w, r['out']))], ['--log_level', 'critical'], ['--cache-lvs', 'no']]
            opts += [[x] for x in r['engines']]
            if r['other'] or rng.random() < 0.5:
                opts.append(['--cell', o['cell']])
            if not r['rcenv']:
                opts.append(['--magicrc', p(rc)])
            if r['schem']:
                opts.append(['--schematic', p(schem)])
            opts += r['opts']
            rng.shuffle(opts)
            argv = ['kpex'] + [x for q in opts for x in q]
            err = ''
            try:
                KpexCLI().main(argv)
            except (Exception, SystemExit) as x:
                err = f'{type(x).__name__}: {str(x)[:200]}'
            finally:
                c_engines.drop_handlers()
            calls = open('calls').read().split() if os.path.exists('calls') else []
            out = os.path.join(w, r['out'])
            rd = os.path.join(out, f"{r['stem'].split('.')[0]}__{o['cell']}")
            rec = dict(o=o, calls=calls, magic=[], fc=[], fastcap=[], lvs=[])
            cmds = magic_tool.commands(d)
            if cmds:
                mdir = os.path.join(rd, f"magic_{o['mode']}")
                script = ''

                def name(x, prev):
                    if same(x, rc):
                        return '@magicrc'
                    if prev == 'read' and os.path.isfile(x) and box_of(os.path.join(d, 'magic_input'), o['cell']) == width:
                        return '@layout'
                    if os.path.isdir(x) and same(x, mdir):
                        return '@rundir'
                    if os.path.basename(x) == f"{o['cell']}.pex.spice" and same(os.path.dirname(x), mdir):
                        return '@netlist'
                    if x.endswith('.tcl') and os.path.realpath(x).startswith(os.path.realpath(mdir) + os.sep):
                        return '@script'
                    return x

                def words(ws):
                    return [name(x, ws[q - 1] if q else '') for q, x in enumerate(ws)]
                rec['magic'] = [dict(args=words(cmds[0][1:]), cmds=[dict(w=words(c), n=[dec(x) for x in c]) for c in cmds[1:]])]
            for tool in ('fc', 'fastcap'):
                if os.path.exists('args_' + tool):
                    a = json.load(open('args_' + tool))
                    fl = flags(a['args'])
                    for x in fl:
                        if x['w'] and is_list(os.path.join(a['cwd'], x['w']), rd):
                            x['w'] = '@lst' if tool == 'fc' or same(os.path.dirname(os.path.join(a['cwd'], x['w'])), a['cwd']) else '@lst elsewhere'
                    rec[tool] = [dict(args=fl, threads=a['threads'])]
            if os.path.exists('args_lvs'):
                a = json.load(open('args_lvs'))['args']
                vs, script, j = [], '', 0
                while j < len(a):
                    if a[j] == '-rd' and j + 1 < len(a) and '=' in a[j + 1]:
                        vs.append(a[j + 1].split('=', 1))
                        j += 1
                    elif a[j] == '-r' and j + 1 < len(a):
                        script = a[j + 1]
                        j += 1
                    j += 1
                st = open('lvs_schematic').read().split() if os.path.exists('lvs_schematic') else []
                okst = st[:3] == ['.subckt', 'GIVEN', str(k)] if r['schem'] else st[:1] == ['.subckt'] and ' '.join(st[1:]).startswith(o['cell'] + ' ')
                for v in vs:
                    if not os.path.isabs(v[1]):
                        continue
                    if v[0] == 'input' and box_of('lvs_input', o['cell']) == width:
                        v[1] = '@layout'
                    elif v[0] == 'report' and os.path.realpath(v[1]).startswith(os.path.realpath(rd) + os.sep):
                        v[1] = '@lvsdb'
                    elif v[0] == 'schematic' and okst:
                        v[1] = '@schematic'
                ok = os.path.isfile(script) and f"/{r['pdk']}/" in os.path.realpath(script) and script.endswith('.lvs')
                rec['lvs'] = [dict(batch='-b' in a, script='@script' if ok else script, vars=vs)]
            recs.append(dict(rec=rec, argv=argv, err=err))
            shutil.rmtree(w, ignore_errors=True)
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    return recs


def main(c):
    c.model('ToolsModel', f'SPECIFICATION Spec\nCONSTANTS Wide = {c.n("FALSE", "TRUE")}\nINVARIANTS Whole Necessary Distinct Ordered\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng

    def num(choices):
        return rng.choice(choices) if rng.random() < 0.7 else rng.choice([str(rng.randint(1, 500)), f'{rng.randint(1, 9999) / 10000:g}', f'{rng.randint(10, 9999) / 100:g}'])

    def run(k):
        opts = []
        o = dict(cell=rng.choice(['TOP', 'TOP', 'inv$1', 'nand[0]', 'a b', 'p;q', 'x"y', 'a#b', 'c{d', 'm<1>', 'b\\c', "it's", 'ü', '$x', 'TOP_flat']),
                 mode='CC', short='', merge='', precond=True, galerkin=False, jacobi=False, verbose=False, threads='')
        for key, flag, vals in (('tolerance', '--tolerance', ['0.1', '0.001', '1e-3', '5']), ('dcoeff', '--d_coeff', ['0.25', '1', '0.5', '0.12345678', '2.0000005']),
                                ('mesh', '--mesh', ['0.25', '2', '0.5']), ('ooc', '--ooc', ['0', '1', '5', '2.5']),
                                ('cthresh', '--magic_cthresh', ['0', '1', '0.1', '0.00001']), ('mtol', '--magic_tolerance', ['0.5', '10', '1']),
                                ('halo', '--magic_halo', ['0', '8', '50', '0.5', '1.234', '0.0025', '8.001'])):
            o[key] = []
            if rng.random() < 0.5:
                v = num(vals)
                opts.append([flag, v])
                o[key] = dec(v)
        o['rthresh'] = []
        if rng.random() < 0.5:
            v = rng.choice(['0', '1', '50', '10000'])
            opts.append(['--magic_rthresh', v])
            o['rthresh'] = dec(v)
        for key, flag, vals in (('mode', '--magic_mode', ['CC', 'RC', 'R']), ('short', '--magic_short', ['none', 'resistor', 'voltage']),
                                ('merge', '--magic_merge', ['none', 'conservative', 'aggressive']), ('threads', '--threads', ['1', '3', '16'])):
            if rng.random() < 0.7:
                v = rng.choice(vals)
                opts.append([flag, v])
                o[key] = v
        for key, flag in (('precond', '--auto_precond'), ('verbose', '--lvs-verbose')):
            if rng.random() < 0.6:
                o[key] = rng.random() < 0.5
                opts.append([flag, rng.choice(['yes', 'True', '1', 'true', 't']) if o[key] else rng.choice(['no', 'False', '0', 'false', 'f'])])
        for key, flag in (('galerkin', '--galerkin'), ('jacobi', '--jacobi')):
            if rng.random() < 0.5:
                o[key] = True
                opts.append([flag])
        engines = rng.choice([['--magic'], ['--magic'], ['--fastercap'], ['--fastcap'], ['--magic', '--fastercap'], ['--magic', '--fastcap'],
                              ['--fastercap', '--2.5D']])
        o['tools'] = [t for t, f in (('magic', ['--magic']), ('lvs', ['--fastercap', '--fastcap']), ('fc', ['--fastercap']), ('fastcap', ['--fastcap']))
                      if set(f) & set(engines)]
        if rng.random() < 0.3:
            # options of 2.5D do not reach other tools
            opts.append(rng.choice([['--halo', '3'], ['--mode', 'R'], ['--scale', 'no'], ['--k_void', '1.5'], ['--blackbox', 'yes']]))
        return dict(o=o, opts=opts, engines=engines, dirname=f"w{k}{rng.choice(['', '', ' x', '$a', '[b]', 'ü{', ';'])}", out=rng.choice(['out', 'o u t', '$o']),
                    stem=rng.choice(['chip', 'chip', 'my chip', 'a$b[1]', 'x{y', 'v1.2']), suffix=rng.choice(['.gds', '.gds.gz', '.oas']), rel=rng.random() < 0.5,
                    other=rng.random() < 0.3, rcenv=rng.random() < 0.4, schem=rng.random() < 0.5, pdk=rng.choice(['sky130A', 'ihp_sg13g2']))
    specs = [(i, os.path.join(c.scratch, f't{i}'), [run(k) for k in range(8)]) for i in range(c.n(80, 900))]
    with c.pool() as pool:
        flat = [x for rec in pool.imap(job, specs) for x in rec]
    c.cov['command_lines'] = len(flat)
    c.cov['calls'] = {t: sum(t in x['rec']['calls'] for x in flat) for t in ('magic', 'lvs', 'fc', 'fastcap')}
    c.sample(flat[0])

    def describe(i, cl):
        x = flat[i]
        return f"{cl}: {' '.join(map(repr, x['argv']))}: {x['err']} {json.dumps(x['rec'])[:2500]}"
    c.validate('ToolsTrace', [x['rec'] for x in flat], shards=4, describe=describe)
