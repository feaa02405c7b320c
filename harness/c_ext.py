"""C20: the report of a MAGIC run shows what MAGIC's extraction files say."""
import os
import shutil
import sys
from decimal import Decimal
from pathlib import Path
import random
import klayout.db as kdb
from vlib import quiet_log
from c_matrix import norm

DEVICES = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']
LAYERS = ['m1', 'm2', 'li', 'poly', 'ndiff', 'space/w', 'nwell', 'm5', 'mimcap', 'pw']


def chars(s):
    return [ord(c) for c in s]


def dec(x):
    s, digits, e = Decimal(repr(x)).as_tuple()
    m = int(''.join(map(str, digits)))
    return norm(-m if s else m, e)


def name(rng, pool):
    if pool and rng.random() < 0.5:
        return rng.choice(pool)
    k = rng.randrange(9)
    n = [lambda: rng.choice(['VDD', 'VSS', 'A', 'Y', 'clk', 'in']), lambda: f'a_{rng.choice(["", "n"])}{rng.randrange(200)}_{rng.choice(["n", ""])}{rng.randrange(99)}#',
         lambda: rng.choice(['VDD!', 'GND!', 'vss!']), lambda: f'out[{rng.randrange(12)}]', lambda: f'x{rng.randrange(3)}/net.n{rng.randrange(4)}',
         lambda: f'inv_{rng.randrange(3)}/A.t{rng.randrange(4)}', lambda: f'd<{rng.randrange(4)}>', lambda: f'n{rng.randrange(30)}', lambda: rng.choice(['w_1_2#', 'li_0_5#.n0', 'é', 'a,b', 'a;b', '(x)'])][k]()
    pool.append(n)
    return n


def num(rng):
    m = rng.choice([0, 1, 5, 12, 541, 66400, 123456, rng.randrange(1000000), rng.randrange(1000)])
    k = rng.randrange(5)
    if k == 0:
        s = str(m)
    elif k == 1:
        s = '%g' % (m * 10.0 ** rng.randrange(-9, 3))
    elif k == 2:
        s = '%g' % (m / 10 ** rng.randrange(1, 5))
    elif k == 3:
        s = '%de%+03d' % (m, rng.randrange(-8, 9))
    else:
        s = '%.1f' % (m % 100000 / 10)
    if len(s) > 10:
        return '%d' % m
    return ('-' if rng.random() < 0.1 else '') + s


def xy(rng):
    return rng.choice([rng.randint(-4000, 4000), rng.randint(-30, 30), rng.randint(0, 60000), 3, 0])


def other(rng, n):
    return rng.choice(['timestamp 1730000000', 'version 8.3', 'tech sky130A', 'style ngspice()', 'scale 1000 1 500000', 'parameters sky130_fd_pr__nfet_01v8 l=l w=w', '',
                       'resistclasses 4400000 2200000 1700000', f'cap "{n}" "VDD" 0.27', f'equiv "{n}" "B"', f'merge "{n}" "x1/A" -0.27 0 0 0 0', 'use inv x1 1 0 0 0 1 0',
                       f'attr "{n}" 3 4 5 6 m1 "S"', f'portx "{n}" 1 2 3 4 5 m1', f'killnode "{n}"', f'#port "{n}" 1 2 3 4 5 m1', f'fet nfet 1 2 3 4 "{n}"',
                       f'rnode_x "{n}" 0 1 2 3 0', f'distance "{n}" "B" 7 9'])


def generate(rng):
    cells = []
    for n in rng.sample(['TOP', 'inv', 'sub_1', 'a.b', 'nand2$1', 'x.ext', 'res', 'TOP.r'], rng.choice([1, 1, 1, 2, 3])):
        pool = []
        ext = []
        for _ in range(rng.randint(0, 9)):
            k = rng.randrange(5)
            w = name(rng, pool)
            if k == 0:
                x, y = xy(rng), xy(rng)
                ext.append(f'port "{w}" {rng.randrange(20)} {x} {y} {x + rng.randrange(500)} {y + rng.randrange(500)} {rng.choice(LAYERS)}')
            elif k == 1:
                tail = ''.join(f' {rng.randrange(9999)}' for _ in range(2 * rng.randrange(6)))
                ext.append(f'{rng.choice(["node", "node", "substrate"])} "{w}" {num(rng)} {num(rng)} {xy(rng)} {xy(rng)} {rng.choice(LAYERS)}{tail}')
            elif k == 2:
                x, y = xy(rng), xy(rng)
                ext.append(f'device {rng.choice(DEVICES)} {rng.choice(["sky130_fd_pr__nfet_01v8", "pfet-x", "Short", "m1.2"])} {x} {y} {x + rng.randrange(9)} {y + rng.randrange(9)}'
                           + rng.choice(['', f' l=30 w=130 "VSUBS" "{w}" 60 0 "A" 130 0', ' 1']))
            else:
                ext.append(other(rng, w))
        res = []
        hasres = rng.random() < 0.7
        for _ in range(rng.randint(0, 9) if hasres else 0):
            k = rng.randrange(3)
            w = name(rng, pool)
            if k == 0:
                res.append(f'rnode "{w}" {num(rng)} {num(rng)} {xy(rng)} {xy(rng)} {rng.choice(["0", "0", "0", "0", "1"])}')
            elif k == 1:
                res.append(f'resist "{w}" "{name(rng, pool)}" {num(rng)}')
            else:
                res.append(other(rng, w))
        cells.append((n, ext, hasres, res))
    return cells


def items(rep):
    out = []
    for it in rep.each_item():
        cat = rep.category_by_id(it.category_id())
        kind, label = cat.parent().name(), cat.name()
        if cat.parent().parent().name() != 'MAGIC Extraction':
            raise ValueError(f'category {cat.path()}')
        idx, value = 0, [0, 0]
        if kind == 'Resistors':
            head, rest = label.split(' ', 1)
            ends, v, unit = rest.rsplit(' ', 3)[0], rest.rsplit(' ', 2)[1], rest.rsplit(' ', 2)[2]
            if head[0] != '#' or unit != 'Ω':
                raise ValueError(f'resistor {label!r}')
            idx, value = int(head[1:]), dec(float(v))
            label = ends.replace('↔\ufe0e', '↔')
        for v in it.each_value():
            q = v.polygon() if v.is_polygon() else kdb.DPolygon(v.box())
            if not (q.is_box() or q.num_points() < 4 or q.bbox().width() * q.bbox().height() == 0):
                raise ValueError(f'marker {v}')
            b = q.bbox()
            c = [round(q * 1000) for q in (b.left, b.bottom, b.right, b.top)]
            if any(abs(q * 1000 - k) > 1e-3 for q, k in zip((b.left, b.bottom, b.right, b.top), c)):
                raise ValueError(f'off the grid: {b}')
            out.append(dict(cell=rep.cell_by_id(it.cell_id()).name(), k=kind, label=chars(label), n=idx, value=value, box=c))
    return out


def job(spec):
    i, d = spec
    quiet_log()
    import klayout.rdb as rdb
    from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
    from klayout_pex.magic import magic_log_analyzer
    rng = random.Random(f'{i}')
    cells = generate(rng) if rng.random() < 0.97 else []
    os.makedirs(d)
    order = list(range(len(cells)))
    rng.shuffle(order)
    for k in order:
        n, ext, hasres, res = cells[k]
        nl = rng.choice(['\n', '\n', '\r\n'])
        for fn, lines in ((f'{n}.ext', ext), (f'{n}.res.ext', res if hasres else None)):
            if lines is not None:
                with open(f'{d}/{fn}', 'w', newline='', encoding='utf-8') as f:
                    f.write(nl.join(lines) + (nl if lines and rng.random() < 0.9 else ''))
    if not cells or rng.random() < 0.3:
        for fn in ('TOP.spice', 'TOP.ext.log', 'run.log', 'ext'):
            with open(f'{d}/{fn}', 'w') as f:
                f.write('port "no" 1 2 3 4 5 m1\n')
    rec = dict(cells=[dict(name=n, ext=[chars(x) for x in e], hasres=h, res=[chars(x) for x in r]) for n, e, h, r in cells], ok=True, mem=[], saved=[], nums=[])
    try:
        run = parse_magic_pex_run(Path(d))
        for n, e, h, r in cells:
            q = run.cells[n]
            rec['nums'].append(dict(nodes=[[dec(x.int_r), dec(x.fin_c)] for x in q.ext_data.nodes],
                                    rnodes=[[dec(x.int_r), dec(x.fin_c)] for x in q.res_ext_data.rnodes] if h and q.res_ext_data else []))
        dbu = rng.choice([0.001, 0.001, 0.005, 0.0005])
        rep = rdb.ReportDatabase('')
        if rng.random() < 0.5:
            magic_log_analyzer.MagicLogAnalyzer(magic_pex_run=run, report=rep, dbu=dbu).analyze()
            rec['mem'] = [] if dbu != 0.001 else items(rep)
            path = f'{d}/r.rdb.gz'
            rep.save(path)
        else:
            path = f'{d}/{rng.choice(["o.rdb", "o.rdb.gz", "report.rdb.gz"])}'
            argv = ['magic_log_analyzer', rng.choice(['-m', '--magic_log_dir']), d]
            if not path.endswith('report.rdb.gz'):
                argv += [rng.choice(['-o', '--out']), path]
            old, sys.argv = sys.argv, argv
            try:
                magic_log_analyzer.main()
            finally:
                sys.argv = old
            dbu = 0.001
        rep = rdb.ReportDatabase('')
        rep.load(path)
        rec['saved'] = items(rep)
        if dbu != 0.001:        # boxes of points are 20 dbu wide
            w = round(20 * dbu * 1000)
            for it in rec['saved']:
                if it['k'] in ('Nodes', 'Resistor Nodes', 'Resistors'):
                    b = it['box']
                    if (b[2] - b[0], b[3] - b[1]) != (w, w):
                        raise ValueError(f'marker {it}')
                    it['box'] = [b[0], b[1], b[0] + 20, b[1] + 20]
        if not rec['mem']:
            rec['mem'] = rec['saved']
    except Exception as x:
        rec['ok'] = False
        rec['error'] = f'{type(x).__name__}: {str(x)[:200]}'
    rec['lines'] = [[n, e, r] for n, e, h, r in cells]
    shutil.rmtree(d, ignore_errors=True)
    return rec


def main(c):
    c.model('ExtModel', f'SPECIFICATION Spec\nCONSTANTS NameChars = {c.n("{97, 35}", "{97, 35, 46}")}\n MaxName = 2\nINVARIANTS Scanned ReadBack\nCHECK_DEADLOCK FALSE\n')
    base = c.rng.randrange(10 ** 6)
    specs = [(f'{base}/{i}', os.path.join(c.scratch, f'e{i}')) for i in range(c.n(3000, 30000))]
    with c.pool() as pool:
        recs = list(pool.imap(job, specs, chunksize=20))
    c.cov['cells'] = sum(len(r['cells']) for r in recs)
    c.cov['markers'] = sum(len(r['saved']) for r in recs)
    lines = [r.pop('lines') for r in recs]
    c.sample(dict(lines=lines[0], items=recs[0]['saved'][:3]))
    c.validate('ExtTrace', recs, describe=lambda i, cl: f'{cl}: {recs[i].get("error", "")} {lines[i]}'[:1500])
