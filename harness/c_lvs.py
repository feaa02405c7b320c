"""C08: the LVSDB that a run works on is up to date. Histories of edits and runs are produced by TLC from
spec/LvsHistoryModel.tla and replayed through the command line, with a stand-in for the KLayout executable."""
import csv
import json
import os
import random
import re
import resource
import shutil
import time
import klayout.db as kdb
from vlib import quiet_log, NPROC, MachineryError
from layout_lib import build_l2n
import c_rext

LIMIT = 64 << 10
MAXVER = 24

FAKE = r'''#!/bin/bash
ulimit -S -f unlimited
for a in "$@"; do
  case "$a" in
    input=*) in="${a#input=}";;
    report=*) out="${a#report=}";;
    *sg13g2*) ihp=1;;
  esac
done
D="%(d)s"
. "$D/control"
[ -n "$BEFORE" ] && cp "$BEFORE" "$FILE"
v=$(zcat -f "$in" | grep -aom1 'VER_[0-9][0-9][0-9][0-9]' | head -1)
c=SUB
zcat -f "$in" | grep -aqm1 TOPMARK && c=TOP
[ $c = TOP ] && [ -n "$ihp" ] && c=IHP
echo "$v $c" >> "$D/calls"
[ -n "$AFTER" ] && cp "$AFTER" "$FILE"
src="%(pre)s/$v.$c.lvsdb.gz"
case "$LVS" in
  ok) cp "$src" "$out"; exit 0;;
  nonzero) cp "$src" "$out"; exit 1;;
  none) exit 1;;
  silent) exit 0;;
  half) head -c $(( $(stat -c %%s "$src") * NUM / 1000 - SUB )) "$src" > "$out"; exit 1;;
esac
'''


def prebuild(pre):
    rng = random.Random(5)
    import gzip
    for v in range(1, MAXVER + 1):
        ly = kdb.Layout()
        ly.dbu = 0.001
        top, sub = ly.create_cell('TOP'), ly.create_cell('SUB')
        sub.shapes(ly.layer(1, 0)).insert(kdb.Text(f'VER_{v:04d}', kdb.Trans()))
        top.shapes(ly.layer(1, 0)).insert(kdb.Text('TOPMARK', kdb.Trans()))
        top.insert(kdb.CellInstArray(sub.cell_index(), kdb.Trans()))
        ly.write(os.path.join(pre, f'v{v}.gds'))
        for cell in ('TOP', 'SUB', 'IHP'):
            if cell == 'IHP':                              # TOP in the other process
                wire = dict(k=2, x1=0, x2=500, h=True)
                l2n = c_rext.build('ihp_sg13g2', dict(
                    wires=[dict(wire, y1=0, y2=20), dict(wire, y1=40, y2=60)], vias=[], mos=[], devs=[],
                    pins=[dict(k=2, x=50, y=10, r=5, label=f'N{v}_IHP_A'), dict(k=2, x=50, y=50, r=5, label=f'N{v}_IHP_B')]))
            else:
                l2n = build_l2n([(2, f'N{v}_{cell}_A', kdb.Box(0, 0, 5000, 200)), (2, f'N{v}_{cell}_B', kdb.Box(0, 400, 5000, 600))],
                                cell=cell, lvs=True)
            p = os.path.join(pre, f'VER_{v:04d}.{cell}.lvsdb')
            l2n.write(p)
            txt = open(p).read().split('\n')
            noise = '\n'.join('# ' + ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-')
                                             for _ in range(100)) for _ in range(1600))
            with gzip.open(p + '.gz', 'wt') as f:
                f.write(txt[0] + '\n' + noise + '\n' + '\n'.join(txt[1:]))
            os.remove(p)
            if os.path.getsize(p + '.gz') < 1.5 * LIMIT:
                raise MachineryError('padding too small')


# names that are easily taken for one another
STYLES = [lambda f: f'f{f}/chip.gds',
          lambda f: ['chip.gds', 'Chip.gds', 'CHIP.GDS'][f - 1],
          lambda f: ['x_y/chip.gds', 'x/y_chip.gds', 'x/y/chip.gds'][f - 1],
          lambda f: ['chip.gds', 'chip.1.gds', 'chip'][f - 1],
          lambda f: ['my chip/a.gds', 'my_chip/a.gds', 'mychip/a.gds'][f - 1],
          lambda f: ['a/a.gds', 'a/a/a.gds', 'a.gds'][f - 1]]


def gds_path(d, f):
    with open(os.path.join(d, 'style')) as g:
        return os.path.join(d, STYLES[int(g.read())](f))


def run(d, e, nxt, spell, rng):
    """one run; returns the answer of the real code"""
    from klayout_pex.kpex_cli import KpexCLI
    import logging
    f = gds_path(d, e['file'])
    pre = os.path.join(os.path.dirname(d), 'pre')
    v = nxt
    ctl = dict(LVS=e['lvs'], BEFORE='', AFTER='', FILE=f)
    if e['during'] in ('before', 'both'):
        ctl['BEFORE'] = f'{pre}/v{v}.gds'
        v += 1
    if e['during'] in ('after', 'both'):
        ctl['AFTER'] = f'{pre}/v{v}.gds'
    # an incomplete result: nothing, some bytes, the header, all but the end
    ctl['NUM'], ctl['SUB'] = rng.choice([(0, 0), (1, 0), (500, 0), (900, 0), (1000, 700), (1000, 400)])
    with open(os.path.join(d, 'control'), 'w') as g:
        g.write(''.join(f"{k}='{x}'\n" for k, x in ctl.items()))
    calls = os.path.join(d, 'calls')
    if os.path.exists(calls):
        os.remove(calls)
    out = os.path.join(d, f"o{e['out']}")
    if spell == 0:
        gds = f
        os.chdir(d)
    elif spell == 1:
        gds = os.path.relpath(f, d)
        os.chdir(d)
    else:
        gds = os.path.basename(f)
        os.chdir(os.path.dirname(f))
    cell = 'TOP' if e['cell'] == 1 else 'SUB'
    pdk = 'sky130A'
    if e['cell'] == 2 and e['ihp']:                       # the second "cell" is the first one in another process
        cell, pdk = 'TOP', 'ihp_sg13g2'
    argv = ['kpex', '--pdk', pdk, '--gds', gds, '--out_dir', out, '--2.5D', '--log_level', 'critical']
    if e['cell'] == 2 or spell == 1:
        argv += ['--cell', cell]
    if not e['on']:
        argv += ['--cache-lvs', 'false']
    if e['cdir']:
        argv += ['--cache-dir', os.path.join(d, f"c{e['cdir']}")]
    if pdk != 'sky130A':
        cell = 'IHP'
    read = kdb.Layout.read
    if ctl['BEFORE'] and not e['disk'] and rng.random() < 0.5 and \
            not any(x.endswith('.lvsdb.gz') and os.path.basename(f) in p for p, _, fs in os.walk(d) for x in fs):
        # LVS is going to be called: the file changes already as soon as kpex has read it
        late = ctl.pop('BEFORE')

        def read_and_edit(self, path, *args):
            r = read(self, path, *args)
            if os.path.abspath(path) == f:
                kdb.Layout.read = read
                shutil.copy(late, f)
            return r
        kdb.Layout.read = read_and_edit
        ctl['BEFORE'] = ''
        with open(os.path.join(d, 'control'), 'w') as g:
            g.write(''.join(f"{k}='{x}'\n" for k, x in ctl.items()))
    cli = KpexCLI()
    a = dict(ok=False, ver=0, called=[])
    try:
        if e['disk']:
            resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, resource.RLIM_INFINITY))
        try:
            cli.main(argv)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        a['ok'] = True
        vs = set()
        with open(cli.rcx25_extracted_csv_path) as g:
            for row in csv.reader(g, delimiter=';'):
                for x in row[1:3]:
                    m = re.match(r'N(\d+)_(\w+)_[AB]$', x)
                    if m:
                        vs.add((int(m.group(1)), m.group(2)))
        a['ver'] = next(iter(vs))[0] if len(vs) == 1 and next(iter(vs))[1] == cell else -1
    except (Exception, SystemExit) as x:
        a['error'] = f'{type(x).__name__}: {str(x)[:200]}'
    finally:
        kdb.Layout.read = read
        for lg in [logging.getLogger()] + [logging.getLogger(n) for n in list(logging.root.manager.loggerDict)]:
            for h in list(getattr(lg, 'handlers', [])):
                if isinstance(h, logging.FileHandler):
                    lg.removeHandler(h)
                    h.close()
    if os.path.exists(calls):
        for ln in open(calls).read().split('\n'):
            w = ln.split()
            if w:
                a['called'].append(int(w[0][4:]) if len(w) == 2 and w[1] == cell else -1)
    return a


def replay(spec):
    i, d, h = spec
    import rcx
    quiet_log()
    rng = random.Random(i)
    os.makedirs(d)
    pre = os.path.join(os.path.dirname(d), 'pre')
    fake = os.path.join(d, 'klayout')
    with open(fake, 'w') as f:
        f.write(FAKE % dict(d=d, pre=pre))
    os.chmod(fake, 0o755)
    os.environ['KPEX_KLAYOUT_EXE'] = fake
    nfiles = h[0]['nfiles']
    with open(os.path.join(d, 'style'), 'w') as g:
        g.write(str(rng.randrange(len(STYLES)) if nfiles > 1 else 0))
    for f in range(1, nfiles + 1):
        os.makedirs(os.path.dirname(gds_path(d, f)), exist_ok=True)
        shutil.copy(f'{pre}/v{f}.gds', gds_path(d, f))
    time.sleep(0.01)
    nxt = nfiles + 1
    ans = []
    with rcx.Silence():
        for e in h:
            f = gds_path(d, e['file'])
            if e['op'] == 'edit':
                mtime = os.stat(f).st_mtime_ns
                if rng.random() < 0.5:
                    shutil.copy(f'{pre}/v{nxt}.gds', f)
                else:
                    shutil.copy(f'{pre}/v{nxt}.gds', f + '.new')
                    os.replace(f + '.new', f)
                nxt += 1
                if rng.random() < 0.5:
                    # a clock that ticks rarely: the file gets the same time as an LVSDB that was just cached
                    t = [os.stat(os.path.join(p, x)).st_mtime_ns for p, _, fs in os.walk(d) for x in fs
                         if x.endswith('.lvsdb.gz') and os.path.relpath(f, d) in os.path.relpath(p, d)]
                    if t and mtime <= max(t) < os.stat(f).st_mtime_ns:
                        os.utime(f, ns=(max(t), max(t)))
                time.sleep(0.01)
                ans.append(dict(ok=False, ver=0, called=[]))
                continue
            a = run(d, e, nxt, rng.randrange(3), rng)
            if a['called'] and e['during'] != 'no':
                nxt += 2 if e['during'] == 'both' else 1
            ans.append(a)
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    return dict(ev=h, ans=ans)


CONFIGS = [(1, 1, 2, [1]), (1, 2, 1, [0, 1]), (2, 1, 1, [0]), (1, 1, 2, [0, 1]), (2, 2, 2, [0, 1]), (1, 2, 1, [0, 1])]
OTHER_PDK = 5     # in the last one the two cells are one cell in two processes


def cfg(nf, nc, no, cd, depth, dump, calm=False):
    st = lambda n: '{' + ', '.join(map(str, range(1, n + 1))) + '}'
    return (f'SPECIFICATION Spec\nCONSTANTS Files = {st(nf)}\n Cells = {st(nc)}\n Outs = {st(no)}\n'
            f' CDirs = {{{", ".join(map(str, cd))}}}\n Depth = {depth}\n Dumping = {"TRUE" if dump else "FALSE"}\n Calm = {"TRUE" if calm else "FALSE"}\n'
            f'INVARIANTS Fresh CacheCurrent Dump\nCHECK_DEADLOCK FALSE\n' + ('' if dump else 'VIEW View\n'))


def main(c):
    c.model('LvsCache', 'SPECIFICATION Spec\nCONSTANTS Procs = {1, 2}\n MaxVer = 3\n MaxTime = 3\n MaxRuns = 3\n'
            'INVARIANTS Fresh CacheComplete LvsWhenOff HitIsCurrent\nCHECK_DEADLOCK FALSE\n')
    if c.thorough:
        c.model('LvsCache', 'SPECIFICATION Spec\nCONSTANTS Procs = {1, 2}\n MaxVer = 3\n MaxTime = 4\n MaxRuns = 4\n'
                'INVARIANTS Fresh CacheComplete LvsWhenOff HitIsCurrent\nCHECK_DEADLOCK FALSE\n')
    c.model('LvsHistoryModel', cfg(1, 2, 2, [0, 1], c.n(3, 4), False))
    hist = []
    depth = c.n(6, 9)
    num = c.n(20, 200)
    for j, (nf, nc, no, cd), calm in [(j, x, y) for j, x in enumerate(CONFIGS) for y in (False, True)]:
        r = c.tlc('LvsHistoryModel', cfg(nf, nc, no, cd, depth, True, calm), workers=1, count=False,
                  args=('-simulate', f'num={num}', '-depth', str(depth + 1), '-seed', str(c.seed * 100 + j + 50 * calm)))
        k = 0
        for m in re.finditer(r'<<"HISTORY", "(.*)">>', r['out']):
            h = json.loads(m.group(1).encode().decode('unicode_escape'))
            for e in h:
                e['nfiles'] = nf
                e['ihp'] = j == OTHER_PDK
            hist.append((j, h))
            k += 1
        if k < num:
            raise MachineryError(f'only {k} histories simulated')
    pre = os.path.join(c.scratch, 'pre')
    os.makedirs(pre)
    prebuild(pre)
    specs = [(i, os.path.join(c.scratch, f'h{i}'), h) for i, (_, h) in enumerate(hist)]
    with c.pool() as pool:
        recs = list(pool.imap(replay, specs))
    runs = [(e, a) for r in recs for e, a in zip(r['ev'], r['ans']) if e['op'] == 'run']
    c.cov['runs'] = len(runs)
    c.cov['cache_hits'] = sum(a['ok'] and not a['called'] for _, a in runs)
    c.cov['runs_failed'] = sum(not a['ok'] for _, a in runs)
    c.sample(recs[0])
    for j, (nf, nc, no, cd) in enumerate(CONFIGS):
        st = lambda n: '{' + ', '.join(map(str, range(1, n + 1))) + '}'
        idx = [i for i, (k, _) in enumerate(hist) if k == j]
        c.validate('LvsTrace', [recs[i] for i in idx], shards=1,
                   cfg_extra=f'CONSTANTS Files = {st(nf)}\n Cells = {st(nc)}\n Outs = {st(no)}\n CDirs = {{{", ".join(map(str, cd))}}}\n',
                   describe=lambda i, cl: f'history {idx[i]}: {cl}: {json.dumps(recs[idx[i]])[:1500]}')
