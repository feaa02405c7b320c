PROPERTY = 'C23'
NEEDS = 'an item whose category is missing at two levels, the upper one being missing as well'
BREAKS = 'the lower category is inserted at the top level: the database still cannot be loaded'
LIB = False
EDITS = [('klayout_pex/klayout/repair_rdb.py', '                elem = new_category\n', '                elem = new_category if elem is not root else elem\n')]
DEMO = '''
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
import klayout.rdb as rdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.klayout.repair_rdb import repair_rdb
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    p = d + '/x.rdb'
    r = rdb.ReportDatabase('')
    c = r.create_cell('TOP')
    k = r.create_category(r.create_category('up'), 'down')
    r.create_item(c.rdb_id(), k.rdb_id())
    r.save(p)
    s = open(p).read()
    a, b = s.index('<categories>'), s.index(' <cells>')
    open(p, 'w').write(s[:a] + '<categories/>' + s[b:])
    repair_rdb(p)
    q = rdb.ReportDatabase('')
    try:
        q.load(p + '.repair.xml')
    except Exception as e:
        print(e)
        sys.exit(1)
    print(q.num_items())
    sys.exit(0 if q.num_items() == 1 else 1)
finally:
    shutil.rmtree(d)
'''
