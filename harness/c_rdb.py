"""C23: repair of marker databases"""
import gzip
import os
import random
import xml.etree.ElementTree as ET
import klayout.db as kdb
import klayout.rdb as rdb
from vlib import quiet_log

WORDS = ['a', 'VDD', 'a.b', "it's", 'q"r', 'back\\slash', 'é→µ', 'a b', '', '<x>', 'a&b', 'tab\tx', 'nl\ny', '1a', "'", '$1', 'a(b)', '[C] Sidewall', 'a:b', 'x_y', '.', '..', '\\',
         "''", "\\'", "'\\", '#', 'é1', '\\n', '\\101', "a'.b", '\U0001d11e', "[.='a']", ' a', 'b ', '+1', 'inside=x1/n.0', 'A', '\x7f7', '\\.', "n't \"q\""]


def word(rng):
    if rng.random() < 0.6:
        return rng.choice(WORDS)
    return ''.join(rng.choice('ab1._\'\\" é→$()[]&<>\t\n-') for _ in range(rng.randrange(6)))


def make(rng, path):
    """a report with nested categories and items"""
    r = rdb.ReportDatabase(rng.choice(['', 'rep', 'é']))
    r.description = rng.choice(['', 'some text'])
    r.generator = rng.choice(['', 'drc: script=x'])
    cells = [r.create_cell(n) for n in rng.sample(['TOP', 'inv', 'a.b', 'x$1'], rng.randint(1, 3))]
    cats = []
    big = rng.random() < 0.04

    def grow(parent, depth, prefix):
        names = []
        for _ in range(rng.randint(1, 14 if big else 3)):
            n = word(rng)
            if n in names or len(cats) > (120 if big else 14):
                continue
            names.append(n)
            k = r.create_category(parent, n) if parent else r.create_category(n)
            k.description = rng.choice(['', '', 'why', 'é <b>'])
            cats.append((k, prefix + [n]))
            if depth < 4 and rng.random() < 0.55:
                grow(k, depth + 1, prefix + [n])
    grow(None, 1, [])
    for _ in range(rng.randint(40, 300) if big else rng.choice([0, 1, 3, 8])):
        k = rng.choice(cats)[0]
        it = r.create_item(rng.choice(cells).rdb_id(), k.rdb_id())
        for _ in range(rng.randrange(3)):
            it.add_value(rng.choice([kdb.DBox(0, 0, rng.randrange(1, 9), 2), kdb.DEdge(1, 2, 3, rng.randrange(9)), kdb.DPolygon(kdb.DBox(0, 0, 1, rng.randrange(1, 9))), 'text é', 1.5]))
        if rng.random() < 0.2:
            it.comment = 'see "here"'
    r.save(path)
    return [p for _, p in cats]


def content(path):
    r = rdb.ReportDatabase('')
    r.load(path)

    def path_of(k):
        out = []
        while k is not None:
            out.insert(0, k.name())
            k = k.parent()
        return out
    cats, descr = [], {}

    def walk(ks):
        for k in ks:
            p = path_of(k)
            cats.append(p)
            descr[tuple(p)] = k.description
            walk(k.each_sub_category())
    walk(r.each_category())
    items = [(path_of(r.category_by_id(i.category_id())), (r.cell_by_id(i.cell_id()).qname(), [str(v) for v in i.each_value()], getattr(i, 'comment', ''))) for i in r.each_item()]
    return cats, items, descr, (r.description, r.generator, sorted(c.qname() for c in r.each_cell()), r.top_cell_name)


def job(spec):
    from klayout_pex.klayout.repair_rdb import repair_rdb, parse_category_path
    quiet_log()
    rng = random.Random(spec['seed'])
    base = os.path.join(spec['scratch'], f"r{spec['no']}")
    os.makedirs(base)
    path = os.path.join(base, rng.choice(['x.rdb', 'a.b.rdb', 'my report.rdb', 'x.lyrdb', 'norm']))
    make(rng, path)
    ids, recs = {}, []

    def num(p):
        return [ids.setdefault(n, len(ids)) for n in p]
    whats = {}
    cats, items, descr, rest = content(path)
    tree = ET.parse(path)
    root = tree.getroot()
    # what KLayout wrote as category of the items, and how the code reads it
    texts = [e.text for e in root.findall('./items/item/category')]
    for t, (p, _) in zip(texts, items):
        rec = dict(kind='path', names=[[ord(c) for c in n] for n in p], text=[ord(c) for c in t], read=[], crash=False)
        try:
            rec['read'] = [[ord(c) for c in n] for n in parse_category_path(t)]
        except Exception as e:
            rec.update(crash=True, error=f'{type(e).__name__}: {e}')
        recs.append(rec)
    # categories get lost
    mode = rng.choice(['some', 'some', 'all', 'none', 'one'])
    lost = []

    def prune(parent, prefix):
        for e in list(parent.findall('category')):
            p = prefix + [e.findtext('name') or '']
            if mode == 'all' or (mode == 'some' and rng.random() < 0.4) or (mode == 'one' and not lost and rng.random() < 0.3):
                parent.remove(e)
                lost.append(p)
            else:
                prune(e.find('categories'), p)
    prune(root.find('categories'), [])
    left = [p for p in cats if not any(p[:len(q)] == q for q in lost)]
    tree.write(path, encoding='utf-8', xml_declaration=True)
    if rng.random() < 0.3:
        with open(path, 'rb') as f, gzip.open(path + '.gz', 'wb') as g:
            g.write(f.read())
        os.unlink(path)
        path += '.gz'
    before = open(path, 'rb').read()

    def interned(its):
        return [dict(path=num(p), what=whats.setdefault(repr(w), len(whats))) for p, w in its]
    rec = dict(kind='repair', cats=[num(p) for p in left], items=interned(items), cats2=[], items2=[], loaded=False, kept=False, rest=False, crash=False,
               note=f'{path} mode {mode} lost {lost} items {[p for p, _ in items]}')
    try:
        repair_rdb(path)
        rec['kept'] = open(path, 'rb').read() == before
        try:
            cats2, items2, descr2, rest2 = content(path + '.repair.xml')
            rec.update(loaded=True, cats2=[num(p) for p in cats2], items2=interned(items2),
                       rest=rest2 == rest and all(descr2.get(tuple(p)) == descr[tuple(p)] for p in left))
        except Exception as e:
            rec['error'] = f'{type(e).__name__}: {e}'
    except Exception as e:
        rec.update(crash=True, error=f'{type(e).__name__}: {e}')
    recs.append(rec)
    return recs


def main(c):
    chars = c.n('97, 49, 46, 39, 92, 233', '97, 49, 46, 39, 92, 233, 10, 32, 119070, 56')
    for ln, wd in c.n([(2, 2), (3, 1)], [(2, 2), (4, 1)]):
        c.model('RdbPathModel', f'SPECIFICATION SpecPath\nCONSTANTS Chars = {{{chars}}}\n MaxLen = {ln}\n MaxWords = {wd}\n TreeNames = {{1}}\n TreeDepth = 1\n MaxItems = 0\n'
                'INVARIANTS ReadBack\nCHECK_DEADLOCK FALSE\n')
    c.model('RdbPathModel', f'SPECIFICATION SpecTree\nCONSTANTS Chars = {{97}}\n MaxLen = 1\n MaxWords = 1\n TreeNames = {{1, 2}}\n TreeDepth = {c.n(2, 2)}\n MaxItems = {c.n(2, 3)}\n'
            'INVARIANTS AlwaysTree AtEnd NothingToDo\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n')
    with c.pool() as pool:
        recs = [r for rs in pool.map(job, [dict(seed=c.rng.random(), no=i, scratch=c.scratch) for i in range(c.n(400, 6000))], chunksize=8) for r in rs]
    c.cov['paths'] = sum(1 for r in recs if r['kind'] == 'path')
    c.cov['databases'] = sum(1 for r in recs if r['kind'] == 'repair')
    c.cov['broken_databases'] = sum(1 for r in recs if r['kind'] == 'repair' and any(i['path'] not in r['cats'] for i in r['items']))
    c.sample(recs[-1])
    c.validate('RdbPathTrace', recs, what='database', describe=lambda i, cl: f"{recs[i]['kind']}: {cl} {recs[i].get('error', '')} {recs[i].get('note', recs[i].get('names'))}")
