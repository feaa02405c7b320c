"""C25: log files, and runs at the same time. Runs of the command line are driven from barrier to barrier (their reading of
the layout, the calls of MAGIC, LVS, FasterCap and FastCap2, their end) in any interleaving; tools are stand-ins that wait."""
import json
import os
import random
import re
import shutil
import signal
import time
import traceback
import klayout.db as kdb
from vlib import quiet_log
from layout_lib import build_l2n
import c_engines

WAIT = r'''
at() { : > "$D/$RUN.$1.at"; while [ -d "$D" ] && [ ! -e "$D/$RUN.$1.go" ]; do sleep 0.004; done; }
'''
KLAYOUT = r'''#!/bin/bash
D="%(d)s"
''' + WAIT + r'''
for a in "$@"; do case "$a" in report=*) out="${a#report=}";; esac; done
cat "$D/$RUN.part1"
at lvs
cat "$D/$RUN.part2"
[ -e "$D/$RUN.lvsfail" ] && exit 1
cp "$D/lvsdb_$RUN.lvsdb.gz" "$out"
exit 0
'''
FASTERCAP = r'''#!/bin/bash
D="%(d)s"
''' + WAIT + r'''
for a in "$@"; do lst="$a"; done
T=$(cd "$(dirname "$lst")"; awk '/^C/{print $2}' "$(basename "$lst")" | xargs cat | grep -aoE '^N +[0-9]+ +A[0-9]+' | head -1); T=${T##*A}
cat "$D/$RUN.part3"
at fc
echo "Capacitance matrix is:"; echo "Dimension 3 x 3"
echo "g1_VSUBS  3e-09 -1e-11 -2e-11 "; echo "g2_A$T  -1e-11 3e-09 -${RUN}e-10 "
echo "g3_B$T  -2e-11 -${RUN}e-10 3e-09 "
echo
cat "$D/$RUN.part4"
[ -e "$D/$RUN.fcfail" ] && exit 1
exit 0
'''
FASTCAP = r'''#!/bin/bash
D="%(d)s"
''' + WAIT + r'''
for a in "$@"; do case "$a" in -l*) lst="${a#-l}";; esac; done
T=$(awk '/^C/{print $2}' "$lst" | xargs cat | grep -aoE '^N +[0-9]+ +A[0-9]+' | head -1); T=${T##*A}
cat "$D/$RUN.part7"
at fastcap
echo "CAPACITANCE MATRIX, nanofarads"; echo "                 1          2          3"
echo "g1_VSUBS 1          3 -0.01 -0.02"; echo "g2_A$T 2          -0.01 3 -${RUN}e-13"
echo "g3_B$T 3          -0.02 -${RUN}e-13 3"
cat "$D/$RUN.part8"
[ -e "$D/$RUN.fastcapfail" ] && exit 1
exit 0
'''
MAGIC = r'''#!/bin/bash
D="%(d)s"
''' + WAIT + r'''
for a in "$@"; do dir=$(dirname -- "$a"); done
cat "$D/$RUN.part5"
at magic
printf 'timestamp 1\nversion 8.3\ntech sky130A\nport "A%%s" 1 0 0 100 100 m1\nnode "A%%s" 0 0 0 0 m1 0 0 0 0\n' $RUN $RUN > "$dir/$CELL.ext"
printf '.subckt x\nC0 A%%s B%%s 1f\n.ends\n' $RUN $RUN > "$dir/$CELL.pex.spice"
cat "$D/$RUN.part6"
[ -e "$D/$RUN.magicfail" ] && exit 1
exit 0
'''
# tools in the order in which they are called, and the numbers of what they print before and after the barrier
TOOLS = dict(magic=(5, 6), lvs=(1, 2), fc=(3, 4), fastcap=(7, 8))
NOISE = ['', ' plain text', ' [/b] closing', ' [bold]', ' [@x(1] meta', ' [link=a', ' %s %d 100%', ' {0} {x}', ' \\', ' \\[/x]', ' Ω µm → 漢字',
         '\ttabs\t', ' trailing   ', ' x' * 2000, ' \x1b[31mred\x1b[0m', ' "quotes" \'', ' :smile:', ' $HOME `id`', ' <b>&amp;', ' MARK']
LEVELS = dict(all=True, debug=True, subprocess=True, verbose=False, info=False, warning=False, error=False, critical=False)


def child(d, ids, specs):
    """runs one after the other in a process of their own"""
    import klayout.db as k
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)
    from klayout_pex.kpex_cli import KpexCLI
    state = dict(run=0, waited=True)

    def wait(r, b):
        open(os.path.join(d, f'{r}.{b}.at'), 'w').close()
        while not os.path.exists(os.path.join(d, f'{r}.{b}.go')):
            time.sleep(0.004)

    def hooked(cls):
        orig = cls.read

        def read(self, *a, **kw):
            if not state['waited']:
                state['waited'] = True
                wait(state['run'], 'read')
            return orig(self, *a, **kw)
        cls.read = read
    hooked(k.Layout)
    rc = 0
    for r in ids:
        x = specs[r - 1]
        while not os.path.exists(os.path.join(d, f'{r}.new.go')):
            time.sleep(0.004)
        state.update(run=r, waited=False)
        os.environ['RUN'] = str(r)
        os.environ['CELL'] = x['cell']
        rc = 0
        try:
            KpexCLI().main(x['argv'])
        except SystemExit as e:
            rc = 0 if e.code in (None, 0) else 1
        except BaseException:
            rc = 1
            with open(os.path.join(d, f'{r}.error'), 'w') as f:
                f.write(traceback.format_exc()[-1500:])
        open(os.path.join(d, f'{r}.exit{rc}.at'), 'w').close()
    os._exit(0)


def marks(path, plain, texts):
    """the lines of tools in a log file, and whether they're unaltered"""
    res, verb = [], True
    with open(path, 'rb') as f:
        for ln in f.read().decode('utf-8', 'replace').split('\n'):
            m = re.search(r'MARK (\d+) (\d+)', ln)
            if not m:
                continue
            k = (int(m.group(1)), int(m.group(2)))
            res.append(list(k))
            w = texts.get(k)
            if w is not None and (ln != w if plain else not ln.endswith(w)):
                verb = False
    return res, verb


def job(spec):
    i, d, seed = spec
    rng = random.Random(seed)
    quiet_log()
    top = d
    d = os.path.join(d, rng.choice(['w', 'w', 'w [/q]', 'w[', '[red]', 'w $x']))
    os.makedirs(d)
    for name, txt in (('klayout', KLAYOUT), ('fastercap', FASTERCAP), ('fastcap', FASTCAP), ('magic', MAGIC)):
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            f.write(txt % dict(d=d.replace('$', '\\$')))
        os.chmod(p, 0o755)
    os.environ['KPEX_KLAYOUT_EXE'] = os.path.join(d, 'klayout')
    os.environ['KPEX_FASTERCAP_EXE'] = os.path.join(d, 'fastercap')
    os.environ['KPEX_FASTCAP_EXE'] = os.path.join(d, 'fastcap')
    os.environ['KPEX_MAGIC_EXE'] = os.path.join(d, 'magic')
    open(os.path.join(d, 'magicrc'), 'w').close()
    ly = kdb.Layout()
    for cn in ('TOP', 'SUB'):
        ly.create_cell(cn).shapes(ly.layer(67, 20)).insert(kdb.Box(0, 0, 5000, 200))
    files = ['f1/chip.gds', 'f2/chip.gds', rng.choice(['f1/x].gds', 'f2/a b.gds', 'f1/[b].gds'])]
    for f in files:
        os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
        ly.write(os.path.join(d, f))
    past = time.time() - 100
    for f in files:
        os.utime(os.path.join(d, f), (past, past))
    outs = ['o1', rng.choice(['o2', 'o [x', 'deep/er/o2'])]
    nruns = rng.choice([2, 2, 2, 3, 3, 4])
    share = rng.random() < 0.7           # mostly one output directory
    runs, specs, texts = [], [], {}
    dirs, keys = [], []
    same_proc = rng.random() < 0.3
    kind = rng.choice(['mixed', 'mixed', 'same', 'cells'])
    for r in range(1, nruns + 1):
        o = 0 if share else rng.randrange(2)
        f = rng.randrange(3) if kind == 'mixed' else 0
        c = rng.choice(['TOP', 'SUB']) if kind != 'cells' else ['TOP', 'SUB'][r % 2]
        if kind == 'same':
            o = r % 2                     # the same layout and cell, different output directories and maybe one cache
        stem = os.path.basename(files[f]).split('.')[0]
        rd = os.path.join(outs[o], f'{stem}__{c}')
        if rd not in dirs:
            dirs.append(rd)
        cache = rng.choice(['', '', 'c1', 'off'])
        cd = dict([('', 'cache of ' + outs[o])]).get(cache, cache)
        k = (cd, files[f], c)
        if cache == 'off':
            key = 0
        else:
            if k not in keys:
                keys.append(k)
            key = keys.index(k) + 1
        fate = rng.choice(['ok'] * 9 + ['refused', 'nodir', 'lvsfail', rng.choice(['magicfail', 'fcfail', 'fastcapfail'])])
        engines = rng.choice([['fastercap']] * 3 + [['magic'], ['fastcap'], ['fastercap', 'fastcap'], ['magic', 'fastercap'], ['magic', 'fastcap'],
                                                   ['2.5D'], ['magic', '2.5D'], ['fastcap', '2.5D'], ['fastercap', '2.5D'],
                                                   ['magic', 'fastercap', 'fastcap', '2.5D']])
        tools = [t for t, es in (('magic', ['magic']), ('lvs', ['fastercap', 'fastcap', '2.5D']), ('fc', ['fastercap']), ('fastcap', ['fastcap']))
                 if set(es) & set(engines)]
        lvl = rng.choice(['debug', 'all', 'subprocess', '', '', 'verbose', 'info', 'critical', 'warning'])
        pred = 0
        for q in range(1, r):
            if runs[q - 1]['dir'] == dirs.index(rd) + 1:
                pred = q
        x = dict(dir=dirs.index(rd) + 1, key=key, fate=fate, show=LEVELS.get(lvl, True), pred=pred,
                 kill=rng.choice(['read'] + tools) if rng.random() < 0.08 else '', n=[rng.randint(0, 3) for _ in range(8)],
                 tools=tools, proc=r)
        argv = ['kpex', '--pdk', 'sky130A', '--gds', files[f], '--out_dir', outs[o], '--cell', c if fate != 'nodir' else 'NONE',
                '--magicrc', 'magicrc'] + ['--' + e for e in rng.sample(engines, len(engines))]
        if lvl:
            argv += ['--log_level', lvl if rng.random() < 0.5 else lvl.upper()]
        if cache == 'off':
            argv += ['--cache-lvs', 'false']
        elif cache:
            argv += ['--cache-dir', cache]
        if fate == 'refused':
            argv += rng.choice([['--diel', 'all,+x'], ['--schematic', 'missing.spice']])
        if fate.endswith('fail'):
            open(os.path.join(d, f'{r}.{fate}'), 'w').close()
        runs.append(x)
        specs.append(dict(argv=argv, rd=rd, cell=c, engines=engines))
    # runs of the same process: one has to wait for the other
    if same_proc:
        for r in range(2, nruns + 1):
            q = rng.randrange(1, r)
            if all(runs[p - 1]['proc'] != q or p == q for p in range(1, r)) and runs[q - 1]['proc'] == q \
                    and not runs[q - 1]['kill'] and runs[r - 1]['pred'] in (0, q):
                runs[r - 1].update(proc=q, pred=q, kill='')
    for r in range(1, nruns + 1):
        for p in range(8):
            data = b''
            for k in range(runs[r - 1]['n'][p]):
                data += rng.choice([b''] * 6 + [b'\n', b'\n\n', b'   \n', b'\t\n', b'- \n'])
                t = f"MARK {r} {(p + 1) * 100 + k + 1}{rng.choice(NOISE)}"
                if rng.random() < 0.08:
                    data += t.encode() + b' \xb5m\xff\n'
                    continue                                     # no text: may be shown in another way
                texts[(r, (p + 1) * 100 + k + 1)] = t
                data += t.encode() + b'\n'
            if p % 2 and data.endswith(b'\n') and rng.random() < 0.4:
                data = data[:-1]
            with open(os.path.join(d, f'{r}.part{p + 1}'), 'wb') as f:
                f.write(data)
        nets = [(2, f'A{r}', kdb.Box(0, 0, 3000, 200)), (2, f'B{r}', kdb.Box(0, 400, 3000, 600)),
                (3, rng.choice(['[/n]', 'n[0]', '[b]', 'x%s']), kdb.Box(0, 5000, 500, 5200))]
        l2n = build_l2n(nets, lvs=True, cell=specs[r - 1]['cell'])
        cir = l2n.netlist().circuit_by_name(specs[r - 1]['cell'])
        for n in list(cir.each_net()):
            cir.connect_pin(cir.create_pin(n.name), n)
        l2n.write(os.path.join(d, f'lvsdb_{r}.lvsdb.gz'))
    os.chdir(d)
    sched, pids, at, res, tool = [], {}, {r: 'new' for r in range(1, nruns + 1)}, [[] for _ in runs], [False] * nruns
    errors, had = {}, set()

    def ended(r):
        return at[r] in ('exit0', 'exit1', 'killed', 'stuck')

    def step(r):
        x = runs[r - 1]
        if x['kill'] and at[r] == x['kill']:
            os.kill(pids[x['proc']], signal.SIGKILL)
            os.waitpid(pids[x['proc']], 0)
            return 'killed'
        if at[r] == 'new' and x['proc'] == r:
            ids = [q for q in range(1, nruns + 1) if runs[q - 1]['proc'] == r]
            pid = os.fork()
            if pid == 0:
                try:
                    child(d, ids, specs)
                finally:
                    os._exit(3)
            pids[r] = pid
        open(os.path.join(d, f'{r}.{at[r]}.go'), 'w').close()
        t = time.time()
        while time.time() - t < 90:
            new = [f for f in os.listdir(d) if f.endswith('.at') and f not in had and f.startswith(f'{r}.')]
            if new:
                had.add(new[0])
                return new[0].split('.')[1]
            time.sleep(0.004)
        return 'stuck'

    burst = rng.random() < 0.2
    cur = 0
    while True:
        can = [r for r in range(1, nruns + 1) if not ended(r) and (at[r] != 'new' or runs[r - 1]['pred'] == 0 or ended(runs[r - 1]['pred']))]
        if not can:
            break
        r = cur if burst and cur in can and rng.random() < 0.6 else rng.choice(can)
        cur = r
        at[r] = step(r)
        sched.append(dict(r=r, at=at[r]))
        if at[r] == 'stuck':
            break
        if at[r] == 'exit1' and os.path.exists(f'{r}.error'):
            errors[r] = open(f'{r}.error').read().strip().split('\n')[-1][:300]
        if at[r] == 'exit0':
            rd, cell = specs[r - 1]['rd'], specs[r - 1]['cell']
            res[r - 1] = results(rd, cell, specs[r - 1]['engines'])
            # the log files of the tools
            called = [e['at'] for e in sched if e['r'] == r]
            tool[r - 1] = all(ended_with(os.path.join(rd, fn), [f'{r}.part{p}' for p in TOOLS[t]]) for t, fn in (
                ('magic', f'magic_CC/{cell}_MAGIC_CC_Output.txt'), ('lvs', f'{cell}_lvs.log'), ('fc', f'{cell}_FasterCap_Output.txt'),
                ('fastcap', f'{cell}_FastCap2_Output.txt')) if t in called)
    for b in ('read', *TOOLS, 'new'):                       # whoever still waits
        for r in range(1, nruns + 1):
            open(f'{r}.{b}.go', 'w').close()
    for r, pid in pids.items():
        if any(e['r'] == q and e['at'] == 'stuck' for e in sched for q in range(1, nruns + 1)):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    found = []
    for k, rd in enumerate(dirs, 1):
        for f in sorted(os.listdir(rd)) if os.path.isdir(rd) else []:
            if f.startswith('kpex') and f.endswith('.log'):
                plain = 'plain' in f
                lines, verb = marks(os.path.join(rd, f), plain, texts)
                found.append(dict(dir=k, cur=f in ('kpex.log', 'kpex_plain.log'), plain=plain, lines=lines, verb=verb))
    os.chdir('/')
    shutil.rmtree(top, ignore_errors=True)
    for x in runs:
        x.pop('proc')
    return dict(runs=runs, sched=sched, files=found, res=res, tool=tool, argv=[s['argv'] for s in specs], errors=list(errors.items()))


def ended_with(path, parts):
    """the log file of a tool holds all its lines (those that are no text in any form), in order and nothing else"""
    if not os.path.exists(path):
        return False
    have = open(path, 'rb').read().splitlines()
    want = [open(p, 'rb').read().splitlines() for p in parts]
    a, b = len(want[0]), len(have) - len(want[1])
    if b - a != (6 if 'FasterCap' in path else 5 if 'FastCap2' in path else 0):       # (the stand-in prints a matrix in between)
        return False

    def same(w, h):
        try:
            w.decode()
        except UnicodeDecodeError:
            m = re.match(rb'MARK \d+ \d+', w).group()
            return h.startswith(m)
        return w == h
    return all(map(same, want[0], have[:a])) and all(map(same, want[1], have[b:]))


def results(rd, cell, engines):
    out = []

    def put(name, fn):
        try:
            n, v = fn(c_engines.text(os.path.join(rd, name)))
        except Exception:
            n, v = -1, -1
        out.append(dict(file=name, names=n, value=v))

    def one(s):
        s = set(s)
        return next(iter(s)) if len(s) == 1 else -1

    def nets(t):
        return one(map(int, re.findall(r'\b(?:g\d_)?[AB](\d+)\b', t)))

    def matrix(t):
        rows = [ln.split(';') for ln in t.strip().split('\n')]
        return one(int(m.group(1)) for c in rows[0] for m in [re.match(r'g\d+_[AB](\d+)$', c)] if m), round(-float(rows[2][2]) * 1e16)

    def capnet(t):
        t = re.sub(r'\n\+ *', ' ', t)
        m = re.search(r'^C\S+ A(\d+) B(\d+) (\S+)', t, re.M)
        return one({int(m.group(1)), int(m.group(2))}), round(float(m.group(3)) * 1e16)
    for tool in [t for e, t in (('fastercap', 'FasterCap'), ('fastcap', 'FastCap2')) if e in engines]:
        put(f'{cell}_{tool}_Result_Matrix_Raw.csv', matrix)
        put(f'{cell}_{tool}_Result_Matrix_Avg.csv', matrix)
        put(f'{cell}_{tool}_Expanded_Netlist.cir', capnet)
        put(f'{cell}_{tool}_Reduced_Netlist.cir', capnet)
    if '2.5D' in engines:
        put(f'{cell}_k25d_pex_netlist.csv', lambda t: (one(map(int, re.findall(r';[AB](\d+)\b', t))), 0))
        put(f'{cell}_k25d_pex_netlist.spice', lambda t: (nets(t), 0))
    if 'magic' in engines:
        put(f'magic_CC/{cell}.pex.spice', lambda t: (nets(t), 0))
        put(f'magic_CC/{cell}_MAGIC_report.rdb.gz', lambda t: (one(map(int, re.findall(r'\bA(\d+)\b', t))), 0))
        out[-1]['own'] = out[-2]['own'] = True
    for x in out:
        x.setdefault('own', False)
    return out


def main(c):
    cfg = 'SPECIFICATION Spec\nCONSTANTS NRuns = %d\n Dirs = {1, 2}\n Fates = {"ok", "refused", "nodir"}\n Shared = %s\n ByTime = %s\n Open = %s\n MaxTime = 1\nINVARIANTS NoCrash Refines\nCHECK_DEADLOCK FALSE\n'
    c.model('RunLogsModel', cfg % (c.n(2, 3), 'FALSE', 'FALSE', 'FALSE'))
    specs = [(i, os.path.join(c.scratch, f'j{i}'), f'C25/{c.seed}/{c.tier}/{i}') for i in range(c.n(120, 700))]
    with c.pool() as pool:
        recs = list(pool.imap(job, specs))
    c.cov['runs'] = sum(len(r['runs']) for r in recs)
    c.cov['interleaved'] = sum(any(a['r'] != b['r'] for a, b in zip(r['sched'], r['sched'][1:])) for r in recs)
    c.cov['runs_at_once'] = sum(overlap(r) for r in recs)
    c.cov['killed'] = sum(e['at'] == 'killed' for r in recs for e in r['sched'])
    c.sample(recs[0])
    c.validate('RunLogsTrace', recs, what='schedule', describe=lambda i, cl: f"schedule {i}: {cl}: {recs[i]['errors']} {json.dumps(recs[i])[:2500]}")


def overlap(r):
    at = {}
    for e in r['sched']:
        at[e['r']] = e['at']
        if sum(a in ('read', 'lvs', 'fc') for a in at.values()) > 1:
            return True
    return False
