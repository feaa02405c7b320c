PROPERTY = 'C12'
NEEDS = 'a net whose name itself looks like a numbered conductor (g1_g2_x)'
BREAKS = 'the numbering of the conductor is stripped together with a part of the name: the capacitor hangs on a new net'
LIB = False
EDITS = [('klayout_pex/klayout/netlist_expander.py', r"re.compile(r'^g\d+_(.*)$')", r"re.compile(r'^(?:g\d+_)+(.*)$')")]
DEMO = '''
import os, sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
from klayout_pex.klayout.netlist_expander import NetlistExpander
n = kdb.Netlist()
c = kdb.Circuit()
c.name = 'TOP'
n.add(c)
for name in ('g7_a', 'b'):
    c.connect_pin(c.create_pin(name), c.create_net(name))
m = CapacitanceMatrix(conductor_names=['g1_VSUBS', 'g2_g7_a', 'g3_b'], rows=[[3e-15, -1e-15, -1e-15], [-1e-15, 3e-15, -1e-15], [-1e-15, -1e-15, 3e-15]])
x = NetlistExpander.expand(extracted_netlist=n, top_cell_name='TOP', cap_matrix=m, blackbox_devices=False)
nets = {t.name for t in x.circuit_by_name('TOP').each_net()}
print(nets)
sys.exit(0 if 'a' not in nets and 'g7_a' in nets and x.circuit_by_name('TOP').net_by_name('g7_a').terminal_count() > 0 else 1)
'''
