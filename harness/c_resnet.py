"""C24: reduction of resistor networks"""
import contextlib
import io
import random
import re
from fractions import Fraction as F
import klayout.db as kdb
from vlib import quiet_log

VALUES = [F(1), F(1), F(2), F(3), F(1, 2), F(5)]


class Net:
    """exact copy, to keep the numbers small enough for TLC"""
    def __init__(self):
        self.nodes, self.c = set(), {}

    def add(self, a, b, v):
        k = frozenset((a, b))
        self.c[k] = self.c.get(k, 0) + v

    def star(self, n):
        return [(next(iter(k - {n})), v) for k, v in self.c.items() if n in k]

    def drop(self, n):
        self.nodes.discard(n)
        self.c = {k: v for k, v in self.c.items() if n not in k}

    def elim(self, n):
        st = self.star(n)
        tot = sum(v for _, v in st)
        self.drop(n)
        for i in range(len(st)):
            for j in range(i + 1, len(st)):
                self.add(st[i][0], st[j][0], st[i][1] * st[j][1] / tot)

    def join(self, a, b):
        st = self.star(b)
        self.drop(b)
        for m, v in st:
            if m != a:
                self.add(a, m, v)

    def small(self):
        return all(v.numerator < 9000 and v.denominator < 9000 for v in self.c.values())


def program(rng):
    dense = rng.random() < 0.3
    n = rng.randint(6, 9) if dense else rng.randint(2, 7)
    pts = rng.sample([(x, y) for x in range(-300, 400, 100) for y in range(-200, 300, 100)], n)
    g, ops, ever = Net(), [], set()
    keep = sorted(rng.sample(range(1, n + 1), rng.randint(0, max(1, n - 1)) if not dense else n - rng.randint(1, 2)))
    made = []

    def go(op, a=0, b=0, v=F(0), where=None):
        ops.append(dict(op=op, a=a, b=b, v=[v.numerator, v.denominator], where=where or dict(x1=0, y1=0, x2=0, y2=0)))

    for p in range(1, n + 1):
        go('node', p)
        g.nodes.add(p)
        if rng.random() < 0.2:
            go('node', p)
    for p in range(2, n + 1):        # connected, in any order
        v = rng.choice(VALUES)
        q = rng.randint(1, p - 1)
        made.append((p, q, v))
    for _ in range(rng.randint(0, n) if not dense else 4 * n):
        p, q = rng.sample(range(1, n + 1), 2)
        if dense and any({p, q} == {x, y} for x, y, _ in made):
            continue
        made.append((p, q, rng.choice(VALUES)))
    rng.shuffle(made)
    for p, q, v in made:
        go('add', p, q, v)
        g.add(p, q, v)
    final = False
    for _ in range(rng.randint(1, 5)):
        with_s = sorted({m for k in g.c for m in k})
        if not with_s:
            break
        k = rng.choice(['elim', 'elim', 'elim', 'all', 'join', 'remove', 'on', 'in', 'add', 'again', 'again'])
        if k in ('elim', 'remove'):
            a = rng.choice(with_s)
            go(k, a)
            (g.elim if k == 'elim' else g.drop)(a)
        elif k == 'join':
            if len(with_s) < 2:
                continue
            a, b = rng.sample(with_s, 2)
            go(k, a, b)
            g.join(a, b)
        elif k == 'add':
            if len(with_s) < 2:
                continue
            a, b = rng.sample(with_s, 2)
            v = rng.choice(VALUES)
            go(k, a, b, v)
            g.add(a, b, v)
        elif k in ('on', 'in'):
            a, b = rng.sample(pts, 2)
            if k == 'in':
                a, b = (min(a[0], b[0]), min(a[1], b[1])), (max(a[0], b[0]) + 1, max(a[1], b[1]) + 1)
            cut = {}
            if k == 'in':                                  # the polygon is the box without its upper right corner (x > cx, y > cy)
                cut = dict(cx=rng.choice([b[0], rng.randint(a[0], b[0])]), cy=rng.randint(a[1], b[1]))
                if cut['cx'] == a[0] or cut['cy'] == a[1]:
                    cut = dict(cx=b[0], cy=b[1])
            go(k, where=dict(x1=a[0], y1=a[1], x2=b[0], y2=b[1], **cut))
        elif k == 'again':
            gone = sorted(set(range(1, n + 1)) - g.nodes)
            if gone:
                a, b, v = rng.choice(gone), rng.choice(with_s), rng.choice(VALUES)
                go('node', a)
                g.nodes.add(a)
                go('add', b, a, v)
                g.add(b, a, v)
        elif k == 'all':
            final = True
            break
    if final or rng.random() < 0.6:
        go('all')
        order = sorted({m for k in g.c for m in k} - set(keep), reverse=rng.random() < 0.5)
        for a in order:
            g.elim(a)
            if not g.small():
                return None
    if not g.small():
        return None
    return dict(pts=pts, ops=ops, keep=keep, scale=rng.choice([1, 1, 1, 1e-3, 1e-6, 1e4]), names=rng.random() < 0.3, late=rng.random() < 0.3)


def near(x):
    return max(-2 ** 30, min(2 ** 30, int(round(x * 10000))))


def play(spec):
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork, ResistorNetworks
    from klayout_pex.rcx25.r.conductance import Conductance
    quiet_log()
    f = spec['scale']
    rec = dict(kind='net', pts=[list(p) for p in spec['pts']], keep=spec['keep'], ops=[], crash=False)
    try:
        rn = ResistorNetwork()
        ids = {}
        shown = {}
        for o in spec['ops']:
            found = []
            live = {x['p'] for x in rec['ops'][-1]['obs']['ids']} if rec['ops'] else set()
            back = {i: p for p, i in ids.items()}
            if o['op'] == 'node':
                had = rn.has_node(kdb.Point(*spec['pts'][o['a'] - 1]))
                if had != (o['a'] in live):
                    raise AssertionError('has_node')
                i = rn.node_id(kdb.Point(*spec['pts'][o['a'] - 1]))
                ids[o['a']] = i
                if o['a'] in spec['keep']:
                    rn.mark_precious(i)
                if spec['names'] and o['a'] % 2:
                    rn.name(i, f'N{o["a"]}')
                    shown[f'N{o["a"]}'] = o['a']
                else:
                    shown[str(i)] = o['a']
            elif o['op'] == 'add':
                rn.add_cond(ids[o['a']], ids[o['b']], Conductance(o['v'][0] / o['v'][1] * f))
            elif o['op'] == 'elim':
                rn.eliminate_node(ids[o['a']])
            elif o['op'] == 'remove':
                rn.remove_node(ids[o['a']])
            elif o['op'] == 'join':
                rn.connect_nodes(ids[o['a']], ids[o['b']])
            elif o['op'] == 'all':
                rn.eliminate_all()
            elif o['op'] == 'on':
                w = o['where']
                found = [back[i] for i in rn.node_ids(kdb.Edge(w['x1'], w['y1'], w['x2'], w['y2']))]
            elif o['op'] == 'in':
                w = o['where']
                other = ResistorNetwork()
                with contextlib.redirect_stdout(io.StringIO()):
                    hits = ResistorNetworks('m1', 1.0, [other, rn]).find_network_nodes(
                        (kdb.Region(kdb.Box(w['x1'], w['y1'], w['x2'], w['y2'])) - kdb.Region(kdb.Box(w['cx'], w['cy'], w['x2'] + 1, w['y2'] + 1)))[0])
                if any(h[0] is not rn for h in hits):
                    raise AssertionError('nodes of the wrong network')
                found = [back[h[1]] for h in hits]
            where = {tuple(p): k + 1 for k, p in enumerate(spec['pts'])}
            obs_ids = []
            for i, loc in rn.locations.items():
                if rn.location(i) != loc or rn.node_id(loc) != i:
                    raise AssertionError('node_id does not fit location')
                obs_ids.append(dict(p=where[(loc.x, loc.y)], id=i))
            cur = {x['id']: x['p'] for x in obs_ids}
            text = {}
            for t, inv in (('text', False), ('ohms', True)):
                text[t] = []
                for line in rn.to_string(inv).split('\n'):
                    m = re.fullmatch(r'  (\S+),(\S+): (\S+)', line)
                    if m and not re.fullmatch(r'  \S+: -?\d+,-?\d+', line):
                        x = float(m.group(3))
                        text[t].append(dict(a=shown[m.group(1)], b=shown[m.group(2)], v=near(x * f if inv else x / f)))
            obs = dict(ids=obs_ids, s=[dict(a=cur[a], b=cur[b], v=near(c.cond / f)) for (a, b), c in rn.s.items()],
                       star=[dict(a=cur[a], b=cur[b], v=near(c.cond / f)) for a, st in rn.node_to_s.items() for c, b in st],
                       text=text['text'], ohms=text['ohms'], errors=rn.check(), found=found)
            rec['ops'].append(dict(o, obs=obs))
    except Exception as e:
        rec.update(crash=True, error=f'{type(e).__name__}: {e} after {len(rec["ops"])} operations')
    return rec


def calc(seed):
    from klayout_pex.rcx25.r.conductance import Conductance
    rng = random.Random(seed)
    rec = dict(kind='cond', calc=[], crash=False)
    try:
        for _ in range(12):
            a, b = (rng.choice([F(0), F(1), F(rng.randint(1, 60), rng.randint(1, 12))]) for _ in range(2))
            op = rng.choice(['parallel', 'add_parallel', 'serial', 'add_serial', 'res'])
            if op == 'res' and a == 0:
                continue
            f = rng.choice([1, 1e-3, 1e3])
            x, y = Conductance(float(a) * f), Conductance(float(b) * f)
            if op == 'res':
                z = float(x.res()) * f
            else:
                z = getattr(x, op)(y).cond / f
            rec['calc'].append(dict(op=op, a=[a.numerator, a.denominator], b=[b.numerator, b.denominator], y=near(z), a2=near(x.cond / f), b2=near(y.cond / f)))
    except Exception as e:
        rec.update(crash=True, error=f'{type(e).__name__}: {e}')
    return rec


def tri(seed):
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
    rng = random.Random(seed)
    m = rng.choice([10, 100, 1000, 5000])
    while True:
        t = [(rng.randint(-m, m), rng.randint(-m, m) // rng.choice([1, 1, 10, 50])) for _ in range(3)]
        if abs((t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])) > 0:
            break
    rec = dict(kind='tri', t=[], parts=[], crash=False)
    try:
        p = kdb.Polygon([kdb.Point(*q) for q in t])
        rec['t'] = [[q.x, q.y] for q in p.each_point_hull()]
        for q in ResistorNetwork.expand_skinny_tris(p):
            pts = [[k.x, k.y] for k in q.each_point_hull()]
            rec['parts'].append((pts * 3)[:3] if pts else [rec['t'][0]] * 3)
            if len(pts) > 3:
                raise AssertionError('not a triangle')
    except Exception as e:
        rec.update(crash=True, error=f'{type(e).__name__}: {e}')
    return rec


def main(c):
    for n, vals, keep in c.n([(4, '0, 1, 2', '1, 2'), (4, '0, 1', '3')], [(4, '0, 1, 2, 3', '1, 2'), (5, '0, 1', '1, 4'), (4, '0, 1, 3', '2')]):
        c.model('StarMeshModel', f'SPECIFICATION Spec\nCONSTANTS N = {n}\n Values = {{{vals}}}\n Keep = {{{keep}}}\nINVARIANTS Confluent Sound JoinKeeps\nPROPERTIES StepKeeps Ends\nCHECK_DEADLOCK FALSE\n')
    specs = []
    while len(specs) < c.n(400, 6000):
        s = program(c.rng)
        if s:
            specs.append(s)
    with c.pool(limit=60) as pool:
        recs = pool.map(play, specs, chunksize=16)
        recs += pool.map(calc, [c.rng.random() for _ in range(c.n(60, 1000))], chunksize=16)
        recs += pool.map(tri, [c.rng.random() for _ in range(c.n(300, 4000))], chunksize=16)
    c.cov['networks'] = len(specs)
    c.cov['operations'] = sum(len(s['ops']) for s in specs)
    c.cov['triangles'] = sum(1 for r in recs if r['kind'] == 'tri')
    c.sample(recs[0])
    c.validate('StarMeshTrace', recs, what='network', describe=lambda i, cl: f"{recs[i]['kind']}: {cl} {recs[i].get('error', '')}")
