"""C11: capacitance matrices read from solver logs, averaged, and their CSV files."""
import json
import os
from decimal import Decimal
from vlib import quiet_log, NPROC

UNITS = {'atto': -6, 'femto': -3, 'pico': 0, 'nano': 3, 'micro': 6, 'milli': 9, '': 12}


def norm(m, e):
    if m == 0:
        return [0, 0]
    while m % 10 == 0:
        m //= 10
        e += 1
    return [m, e]


def dec(x):
    """a float as a normalised decimal of at most 11 digits (all numbers here have fewer)"""
    d = Decimal('%.10e' % x).normalize()
    s, digits, e = d.as_tuple()
    m = int(''.join(map(str, digits)))
    r = norm(-m if s else m, e)
    return [r[0], r[1]] if abs(r[0]) < 2 ** 31 else [2 ** 31 - 1, 0]


def render(rng, v):
    m, e = v
    style = rng.randrange(3)
    if style == 0 and -8 <= e <= 4:
        s = format(Decimal(m).scaleb(e), 'f')
    elif style == 1:
        k = len(str(abs(m))) - 1
        s = '%s%se%+03d' % (str(Decimal(m).scaleb(-k)), '' if k else '.0', e + k)
    else:
        s = '%de%d' % (m, e)
    return s


def generate(rng, kind):
    """log lines: (abstract line, text)"""
    out = []

    def text(*choices):
        out.append((dict(k='text', n=0, name='', vals=[]), rng.choice(choices)))
    head = ['Running FasterCap version 6.0.7', 'Starting capacitance extraction with the following parameters:'] if kind == 'fastercap' \
        else ['Running fastcap 2.0 (18Sept92)', '  Input: FasterCap_Input_.lst', '  Input surfaces:']
    for h in head + ['', '', 'Date: Wed Nov 18']:
        text(h)
    n_mat = rng.choice([0, 1, 1, 1, 2, 3])
    unit = ''
    cut = rng.random() < 0.2
    for k in range(n_mat):
        for _ in range(rng.randrange(3)):
            text('Iteration number #1 ***************************', 'GMRES Iteration: 0 1 2 3 ', 'Dimension 2 x 2', '', 'g1_VSUBS is a conductor',
                 'Warning: capacitance matrix has a non-negative off-diagonal element at row 1 col 2', 'TOTALS 1 2 3')
        n = rng.choice([1, 2, 3, 4, 5, 11, 12])
        names = []
        for i in range(n):
            net = rng.choice(['VSS', 'VDD', '$1', 'a.b', 'net#7', 'A|B', 'in[3]', 'x_y', 'Q'])
            names.append(f'g{i + 1}_{net}' if kind == 'fastercap' else f'{rng.choice(["$1", "VDD", "n_long_name", net])}%GROUP{i + 2}')
        rows = []
        base = rng.randrange(-14, -8)
        for i in range(n):
            rows.append([norm(rng.choice([1, -1]) * rng.choice([0, rng.randint(1, 999999), rng.randint(1, 99999), rng.randint(1, 999)]), base + rng.randrange(3)) for _ in range(n)])
        if rng.random() < 0.3:
            rows = [[rows[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        lines = []
        if kind == 'fastercap':
            lines.append((dict(k='head', n=0, name='', vals=[]), rng.choice(['Capacitance matrix is:', 'Capacitance matrix is: '])))
            lines.append((dict(k='dim', n=n, name='', vals=[]), f'Dimension {n} x {n}'))
        else:
            unit = rng.choice(['pico', 'pico'] + list(UNITS))
            lines.append((dict(k='head', n=0, name='', vals=[]), f'CAPACITANCE MATRIX, {unit}farads'))
            lines.append((dict(k='dim', n=n, name='', vals=[]), ' ' * 20 + ' '.join('%10d' % (i + 1) for i in range(n)) + rng.choice(['', ' '])))
        wid = max(map(len, names))
        for i in range(n):
            vals = [render(rng, v) for v in rows[i]]
            if kind == 'fastercap':
                s = names[i] + '  ' + ' '.join(vals) + rng.choice(['', ' '])
            else:
                s = names[i].ljust(wid) + ' ' + str(i + 1).ljust(len(str(n))) + ' ' + ' '.join('%10s' % v for v in vals)
            lines.append((dict(k='row', n=0, name=names[i], vals=rows[i]), s))
        if cut and k == n_mat - 1:
            lines = lines[:rng.randrange(1, len(lines))]
            out += lines
            if rng.random() < 0.5:
                text('Warning: out of memory', 'Error: cannot allocate', '')
        else:
            out += lines
            for _ in range(rng.randrange(3)):
                text('', 'Warning: capacitance matrix is not diagonally dominant due to row 1', 'Total time: 1.5s', 'Solve statistics:')
    return [a for a, _ in out], [t for _, t in out], (-6 + UNITS.get(unit, 0) if kind == 'fastcap' else -6)


def mat(cm):
    return dict(ok=True, names=list(cm.conductor_names), rows=[[dec(v) for v in r] for r in cm.rows])


NONE = dict(ok=False, names=[], rows=[])


def job(a):
    i, kind, log, lines, exp, scratch = a
    quiet_log()
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix as p1
    from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix as p2
    path = os.path.join(scratch, f'log_{i}.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if i % 3 else ''))
    r = dict(kind=kind, log=log, exp=exp, got=NONE, csv=NONE, avg=[], avgcsv=[], kept=[])
    try:
        cm = (p1 if kind == 'fastercap' else p2)(path)
    except Exception as x:
        r['error'] = f'{type(x).__name__}: {str(x)[:100]}'
        return r
    try:
        r['got'] = mat(cm)
        av = cm.averaged_off_diagonals()
        r['avg'] = mat(av)['rows']
        r['kept'] = mat(cm)['rows']
        cm.write_csv(path)
        r['csv'] = mat(CapacitanceMatrix.parse_csv(path))
        av.write_csv(path)
        r['avgcsv'] = mat(CapacitanceMatrix.parse_csv(path))['rows']
    except Exception as x:
        r['error'] = f'{type(x).__name__}: {str(x)[:100]}'
        r['csv'] = NONE
    os.remove(path)
    return r


def main(c):
    c.model('CapMatrixModel', f'SPECIFICATION Spec\nCONSTANTS MaxIter = 2\n Vals = {{1, 2}}\nINVARIANTS LastOrNone AvgOk\nCHECK_DEADLOCK FALSE\n')
    rng = c.rng
    jobs = []
    for i in range(c.n(3000, 30000)):
        kind = rng.choice(['fastercap', 'fastcap'])
        log, lines, exp = generate(rng, kind)
        jobs.append((i, kind, log, lines, exp, c.scratch))
    with c.pool() as pool:
        recs = list(pool.imap(job, jobs, chunksize=20))
    c.cov['logs_with_matrix'] = sum(r['got']['ok'] for r in recs)
    c.cov['logs_without_complete_matrix'] = sum(not r['got']['ok'] for r in recs)
    c.sample(dict(lines=jobs[0][3][-8:], got=recs[0]['got']))
    c.validate('CapMatrixTrace', recs, describe=lambda i, cl: f"{recs[i]['kind']} log {i}: {cl}: {recs[i].get('error', '')} "
               f"{json.dumps(jobs[i][3][-14:])[:1200]} -> {json.dumps(recs[i]['got'])[:600]}")
