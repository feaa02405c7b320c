"""C09: results come from the tools that a run has called, and their failures end it."""
import csv
import gzip
import json
import logging
import os
import random
import re
import shutil
import klayout.db as kdb
from vlib import quiet_log, NPROC
from layout_lib import build_l2n
import magic_tool

CONTROL = '%(d)s/control'
KLAYOUT = r'''#!/bin/bash
. "%(d)s/control"
echo lvs >> "%(d)s/calls"
for a in "$@"; do case "$a" in report=*) out="${a#report=}";; esac; done
[ -n "$LATE" ] && { exec >&- 2>&-; sleep 0.$LATE; }   # (its output ends some time before it does)
[ "$LVS" != none ] && cp "%(d)s/lvsdb_$TAG.lvsdb.gz" "$out"
[ "$LVS" = exit ] && exit 1
[ "$LVS" = kill ] && kill -9 $$
exit 0
'''
FASTERCAP = r'''#!/bin/bash
. "%(d)s/control"
echo fc >> "%(d)s/calls"
echo "Running FasterCap version 6.0.7"
matrix() { echo "Capacitance matrix is:"; echo "Dimension 3 x 3"
 echo "g1_VSUBS  3e-09 -1e-11 -2e-11 "; echo "g2_A$TAG  -1e-11 3e-09 -$1e-10 "
 [ "$2" = half ] || echo "g3_B$TAG  -2e-11 -$1e-10 3e-09 "; }
[ "$FC" = again ] && { matrix 77; echo; echo "Iteration number #1"; }
[ "$FC" = none ] && { echo "Error: cannot open the input file"; exit 0; }
matrix $TAG $FC
[ "$FC" = half ] && exit 0
echo; echo "Total time: 1s"
[ -n "$LATE" ] && { exec >&- 2>&-; sleep 0.$LATE; }
[ "$FC" = exit ] && exit 1
[ "$FC" = kill ] && kill -9 $$
exit 0
'''
FASTCAP = r'''#!/bin/bash
. "%(d)s/control"
echo fcap >> "%(d)s/calls"
echo "Running fastcap 2.0 (18Sept92)"
matrix() { echo "CAPACITANCE MATRIX, nanofarads"; echo "                 1          2          3"
 echo "g1_VSUBS 1          3 -0.01 -0.02"; echo "g2_A$TAG 2          -0.01 3 -$1e-13"
 [ "$2" = half ] || echo "g3_B$TAG 3          -0.02 -$1e-13 3"; }
[ "$FCAP" = again ] && { matrix 77; echo; echo "ITERATION DATA"; }
[ "$FCAP" = none ] && { echo "input: can't open"; exit 0; }
matrix $TAG $FCAP
[ "$FCAP" = half ] && exit 0
[ $((TAG %% 2)) = 0 ] && { echo; echo "Total time: 1"; }
[ -n "$LATE" ] && { exec >&- 2>&-; sleep 0.$LATE; }
[ "$FCAP" = exit ] && exit 1
[ "$FCAP" = kill ] && kill -9 $$
exit 0
'''
VARS = dict(lvs='KPEX_KLAYOUT_EXE', fc='KPEX_FASTERCAP_EXE', fcap='KPEX_FASTCAP_EXE', magic='KPEX_MAGIC_EXE')
NAMES = dict(lvs='klayout', fc='FasterCap', fcap='fastcap', magic='magic')       # names that are looked for in PATH by default


def one(tags):
    return next(iter(tags)) if len(tags) == 1 else -1


def text(path):
    data = open(path, 'rb').read()
    if data[:2] == b'\x1f\x8b':
        data = gzip.decompress(data)
    return data.decode('utf-8', 'replace')


def tags_of(d, out):
    """the tags in the result files: 0 absent, -1 unclear"""
    rd = os.path.join(out, 'chip__TOP')
    res = {}

    def put(name, path, fn):
        p = os.path.join(rd, path)
        if not os.path.exists(p):
            res[name] = 0
            return
        try:
            res[name] = fn(text(p))
        except Exception:
            res[name] = -1

    def matrix(t):
        rows = [ln.split(';') for ln in t.strip().split('\n')]
        names = {int(m.group(1)) for c in rows[0] for m in [re.match(r'g\d+_[AB](\d+)$', c)] if m}
        return one(names | {round(-float(rows[2][2]) * 1e16)})

    def capnet(t):
        t = re.sub(r'\n\+ *', ' ', t)
        m = re.search(r'^C\S+ A(\d+) B(\d+) (\S+)', t, re.M)
        return one({int(m.group(1)), int(m.group(2)), round(float(m.group(3)) * 1e16)})

    def fccsv(t):
        for row in csv.reader(t.split('\n'), delimiter=';'):
            m = len(row) == 4 and re.match(r'A(\d+)B(\d+)$', row[1] + row[2])
            if m:
                return one({int(m.group(1)), int(m.group(2)), round(float(row[3]) * 10)})
        return -1
    put('spice', 'magic_CC/TOP.pex.spice', lambda t: one(set(map(int, re.findall(r'TAG(\d+)', t)))))
    put('report', 'magic_CC/TOP_MAGIC_report.rdb.gz', lambda t: one(set(map(int, re.findall(r'TAG(\d+)', t)))))
    put('raw', 'TOP_FasterCap_Result_Matrix_Raw.csv', matrix)
    put('avg', 'TOP_FasterCap_Result_Matrix_Avg.csv', matrix)
    put('expanded', 'TOP_FasterCap_Expanded_Netlist.cir', capnet)
    put('reduced', 'TOP_FasterCap_Reduced_Netlist.cir', capnet)
    put('csv', 'TOP_FasterCap_Expanded_Netlist.csv', fccsv)
    put('fraw', 'TOP_FastCap2_Result_Matrix_Raw.csv', matrix)
    put('favg', 'TOP_FastCap2_Result_Matrix_Avg.csv', matrix)
    put('fexpanded', 'TOP_FastCap2_Expanded_Netlist.cir', capnet)
    put('freduced', 'TOP_FastCap2_Reduced_Netlist.cir', capnet)
    put('k25csv', 'TOP_k25d_pex_netlist.csv', lambda t: one(set(map(int, re.findall(r';[AB](\d+)\b', t)))))
    put('k25spice', 'TOP_k25d_pex_netlist.spice', lambda t: one(set(map(int, re.findall(r'\b[AB](\d+)\b', t)))))
    return res


def drop_handlers():
    for lg in [logging.getLogger()] + [logging.getLogger(n) for n in list(logging.root.manager.loggerDict)]:
        for h in list(getattr(lg, 'handlers', [])):
            if isinstance(h, logging.FileHandler):
                lg.removeHandler(h)
                h.close()


def make_tools(d):
    for name, txt in (('klayout', KLAYOUT), ('FasterCap', FASTERCAP), ('fastcap', FASTCAP)):
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(txt % dict(d=d))
        os.chmod(p, 0o755)
    magic_tool.write(d)


def job(spec):
    i, d, runs = spec
    import rcx
    quiet_log()
    from klayout_pex.kpex_cli import KpexCLI
    os.makedirs(d)
    make_tools(d)
    rng = random.Random(i)
    ly = kdb.Layout()
    t = ly.create_cell('TOP')
    t.shapes(ly.layer(67, 20)).insert(kdb.Box(0, 0, 5000, 200))
    ly.write(os.path.join(d, 'chip.gds'))
    out = os.path.join(d, 'out')
    os.environ['PDKPATH'] = d
    os.environ['PDK'] = 'sky130A'
    ans = []
    path = os.environ['PATH']
    os.chdir(d)
    with rcx.Silence():
        for k, r in enumerate(runs, 1):
            l2n = build_l2n([(2, f'A{k}', kdb.Box(0, 0, 3000, 200)), (2, f'B{k}', kdb.Box(0, 400, 3000, 600))], lvs=True)
            cir = l2n.netlist().circuit_by_name('TOP')
            for n in list(cir.each_net()):
                cir.connect_pin(cir.create_pin(n.name), n)
            l2n.write(os.path.join(d, f'lvsdb_{k}.lvsdb.gz'))
            with open('control', 'w') as f:
                f.write(f"TAG={k}\nLVS={r['lvsT']}\nFC={r['fcT']}\nFCAP={r['fcapT']}\nMAG={r['magicT']}\nLATE={rng.choice(['', '', '', 1, 2])}\n")
            if os.path.exists('calls'):
                os.remove('calls')
            os.makedirs(f'bin{k}')
            os.environ['PATH'] = os.path.join(d, f'bin{k}') + os.pathsep + path
            for tool, exe in NAMES.items():
                # by its default name in PATH, or where the environment says (the KLayout executable is looked for beforehand)
                os.environ.pop(VARS[tool], None)
                if rng.random() < 0.3 and not shutil.which(exe, path=path):
                    if r[tool + 'T'] != 'missing':
                        os.symlink(os.path.join(d, exe), os.path.join(f'bin{k}', exe))
                else:
                    os.environ[VARS[tool]] = os.path.join(d, exe) + ('_missing' if r[tool + 'T'] == 'missing' else '')
            argv = ['kpex', '--pdk', 'sky130A', '--gds', rng.choice(['chip.gds', os.path.join(d, 'chip.gds')]),
                    '--out_dir', rng.choice(['out', out]), '--cache-lvs', 'false', '--log_level', 'critical']
            opts = (['--magic'] if r['magic'] else []) + (['--fastercap'] if r['fc'] else []) + (['--fastcap'] if r['fcap'] else []) + (['--2.5D'] if r['k25'] else [])
            rng.shuffle(opts)
            a = dict(ok=False, called=[])
            try:
                KpexCLI().main(argv + opts)
                a['ok'] = True
            except (Exception, SystemExit) as x:
                a['error'] = f'{type(x).__name__}: {str(x)[:200]}'
            finally:
                drop_handlers()
            if os.path.exists('calls'):
                a['called'] = open('calls').read().split()
            a['dir'] = tags_of(d, out)
            ans.append(a)
    os.chdir('/')
    os.environ['PATH'] = path
    shutil.rmtree(d, ignore_errors=True)
    return dict(runs=runs, ans=ans)


def main(c):
    c.model('EnginesModel', f'SPECIFICATION Spec\nCONSTANTS MaxRuns = {c.n(2, 3)}\nINVARIANT Contract\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng
    specs = []
    good = ['ok', 'ok', 'again']

    def run():
        while True:
            r = dict(magic=rng.random() < 0.5, fc=rng.random() < 0.5, fcap=rng.random() < 0.4, k25=rng.random() < 0.5,
                     lvsT=rng.choice(['ok', 'ok', 'ok', 'exit', 'kill', 'none']),
                     magicT=rng.choice(good * 2 + ['exit', 'kill', 'missing', 'none', 'none']),
                     fcT=rng.choice(good * 3 + ['exit', 'kill', 'missing', 'none', 'half']),
                     fcapT=rng.choice(good * 2 + ['exit', 'kill', 'missing', 'none', 'half']))
            if r['magic'] or r['fc'] or r['fcap'] or r['k25']:
                return r
    for i in range(c.n(64, 500)):
        specs.append((i, os.path.join(c.scratch, f'h{i}'), [run() for _ in range(c.n(6, 8))]))
    with c.pool() as pool:
        recs = list(pool.imap(job, specs))
    c.cov['runs'] = sum(len(r['runs']) for r in recs)
    c.cov['runs_failed'] = sum(not a['ok'] for r in recs for a in r['ans'])
    c.sample(recs[0])

    def describe(i, cl):
        for r, a in zip(recs[i]['runs'], recs[i]['ans']):
            pass
        return f"history {i}: {cl}: {json.dumps([(r, a) for r, a in zip(recs[i]['runs'], recs[i]['ans'])])[:2500]}"
    c.validate('EnginesTrace', recs, shards=4, describe=describe)
