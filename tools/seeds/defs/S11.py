PROPERTY = 'C20'
NEEDS = 'several resistor nodes of the same name'
BREAKS = 'the line of a resistor is drawn at the first node of that name only'
LIB = False
EDITS = [('klayout_pex/magic/magic_ext_data_structures.py', 'return [n for n in self.rnodes if n.name == name]', 'return list({n.name: n for n in self.rnodes if n.name == name}.values())')]
DEMO = '''
import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
from pathlib import Path
import klayout.rdb as rdb
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    with open(d + '/c.ext', 'w') as f:
        f.write('port "A" 1 0 0 10 10 m1\\n')
    with open(d + '/c.res.ext', 'w') as f:
        f.write('rnode "A" 0 0 10 20 0\\nrnode "A" 0 0 300 20 0\\nrnode "B" 0 0 10 400 0\\nresist "A" "B" 5\\n')
    r = rdb.ReportDatabase('')
    MagicLogAnalyzer(magic_pex_run=parse_magic_pex_run(Path(d)), report=r, dbu=1e-3).analyze()
    p = d + '/o.rdb'
    r.save(p)
    q = rdb.ReportDatabase('')
    q.load(p)
    n = [1 for i in q.each_item() if '= 5' in q.category_by_id(i.category_id()).name()]
    print(len(n), 'markers of the resistor')
    sys.exit(0 if len(n) == 3 else 1)
finally:
    shutil.rmtree(d)
'''
