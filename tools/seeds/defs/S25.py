PROPERTY = 'C15'
NEEDS = 'a net that touches two dielectrics of the same permittivity (or one like the void)'
BREAKS = 'of the geometry files of a net for dielectrics of the same permittivity only the last is written: faces of the net are missing'
EDITS = [('klayout_pex/fastercap/fastercap_model_generator.py', 'cond_data_grouped_by_net = defaultdict(list)', 'cond_data_grouped_by_net = defaultdict(dict)'),
         ('klayout_pex/fastercap/fastercap_model_generator.py', 'cond_data_grouped_by_net[k.net_name].append((k.outside, data))',
          'k_outside = self.materials[k.outside] if k.outside else self.k_void\n            cond_data_grouped_by_net[k.net_name][k_outside] = (k.outside, data)'),
         ('klayout_pex/fastercap/fastercap_model_generator.py', 'for idx, (outside, data) in enumerate(cond_list):', 'for idx, (outside, data) in enumerate(cond_list.values()):')]
LIB = False
DEMO = '''
import glob, os, re, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=0.001, k_void=1.0, delaunay_amax=0.0, delaunay_b=0.5)
b.add_material('a', 4.0)
b.add_material('b', 4.0)
big = kdb.Region(kdb.Box(0, 0, 2000, 2000))
b.add_conductor('N', kdb.Region(kdb.Box(500, 500, 1500, 1500)), 0.5, 1.0)
b.add_dielectric('a', big, 0.0, 1.0)
b.add_dielectric('b', big, 1.0, 1.0)
gen = b.generate()
area = 0.0
with tempfile.TemporaryDirectory(prefix='kpex_demo_') as d:
    lst = gen.write_fastcap(output_dir_path=d, prefix='x_')
    for ln in open(lst):
        if ln.startswith('C '):
            for t in open(os.path.join(d, ln.split()[1])):
                if t.startswith('T '):
                    v = list(map(float, t.split()[2:11]))
                    u, w = [v[i + 3] - v[i] for i in range(3)], [v[i + 6] - v[i] for i in range(3)]
                    c = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
                    area += sum(x * x for x in c) ** 0.5 / 2
print('surface of the conductor', area, 'expected 6')
sys.exit(0 if abs(area - 6.0) < 1e-6 else 1)
'''
