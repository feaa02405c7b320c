PROPERTY = 'C14'
NEEDS = 'two dielectrics that touch in both directions (each lies above, or beside, the other one somewhere)'
BREAKS = 'the faces collected under the opposite direction are not turned round: their reference points lie on the wrong side'
LIB = False
EDITS = [('klayout_pex/fastercap/fastercap_model_generator.py', 'dk[kk] += list(map(lambda t: t.reversed(), v))', 'dk[kk] += v')]
DEMO = '''
import os, sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=0.001, k_void=1.0, delaunay_amax=0.0, delaunay_b=0.5)
b.add_material('a', 3.0)
b.add_material('b', 5.0)
box = lambda: kdb.Region(kdb.Box(0, 0, 1000, 1000))
b.add_dielectric('b', box(), 0.0, 1.0)
b.add_dielectric('a', box(), 1.0, 1.0)
b.add_dielectric('b', box(), 2.0, 1.0)
gen = b.generate()
bad = n = 0
for k, ts in gen.diel_data.items():
    if {k.outside, k.inside} == {'a', 'b'}:
        for t in ts:
            z = t.p0.z
            up = t.outside_reference_point().z > z
            side = ('a' if up else 'b') if abs(z - 1) < 1e-9 else ('b' if up else 'a')
            n += 1
            bad += side != k.outside
print(n, 'triangles between a and b,', bad, 'of them the wrong way round')
sys.exit(0 if n >= 4 and bad == 0 else 1)
'''
