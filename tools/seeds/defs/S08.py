PROPERTY = 'C11'
NEEDS = 'a capacitance that needs more than six significant digits (a large self capacitance next to others)'
BREAKS = 'the matrix files keep six significant digits only: what is read back differs from what the solver said'
LIB = False
EDITS = [('klayout_pex/common/capacitance_matrix.py', "'%.12g' % cell", "'%.6g' % cell")]
DEMO = '''
import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    rows = [[1234567.5, -1234566.25], [-1234566.25, 1234567.5]]
    p = os.path.join(d, 'm.csv')
    CapacitanceMatrix(conductor_names=['g1_A', 'g2_B'], rows=rows).write_csv(output_path=p, separator=';')
    m = CapacitanceMatrix.parse_csv(path=p, separator=';')
    print(m.rows)
    sys.exit(0 if all(abs(a - b) < 1e-3 for x, y in zip(m.rows, rows) for a, b in zip(x, y)) else 1)
finally:
    shutil.rmtree(d)
'''
