PROPERTY = 'C05'
NEEDS = 'two runs in one process, the first with --halo, the second without'
BREAKS = 'the parsed technology is cached and shared, so the halo override of one run stays for the next ones'
EDITS = [('klayout_pex/tech_info.py', '''    @staticmethod
    def parse_tech_def(''', '''    @staticmethod
    @cache
    def parse_tech_def('''), ('klayout_pex/tech_info.py', 'from functools import cached_property', 'from functools import cache, cached_property')]
DEMO = '''
from lib import *
from klayout_pex.kpex_cli import KpexCLI
os.environ['KPEX_KLAYOUT_EXE'] = '/bin/true'
l = l2n_of([(2, 'A', kdb.Box(0, 0, 10000, 500)), (2, 'B', kdb.Box(0, 3000, 10000, 3500)), (3, 'C', kdb.Box(0, 5000, 10000, 6000))])
p = os.path.join(SCRATCH, 'x.lvsdb.gz')
l.write(p)
def run(i, *a):
    c = KpexCLI()
    c.main(['kpex', '--pdk', 'sky130A', '--lvsdb', p, '--out_dir', os.path.join(SCRATCH, f'o{i}'), '--2.5D', '--log_level', 'critical', *a])
    return {str(k): round(v, 6) for k, v in c.rcx25_extraction_results.summarize().capacitances.items()}
a = run(1)
b = run(2, '--halo', '1')
c = run(3)
expect('halo matters', a != b, True)
expect('the run without --halo gives the same again', c, a)
'''
