PROPERTY = 'C24'
NEEDS = 'eliminating a node with four neighbours, two of them connected already'
BREAKS = 'an existing resistor is kept as it is instead of getting the new one in parallel'
LIB = False
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', '                    self.add_cond(s1[1], s2[1], Conductance(c))',
          '                    if len(star) < 4 or (s1[1], s2[1]) not in self.s:\n                        self.add_cond(s1[1], s2[1], Conductance(c))')]
DEMO = '''
import os, sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
r = ResistorNetwork()
n = [r.node_id(kdb.Point(100 * i, 0)) for i in range(5)]
for i in range(1, 5):
    r.add_cond(n[0], n[i], Conductance(1.0))
r.add_cond(n[1], n[2], Conductance(1.0))
r.eliminate_node(n[0])
print(r)
sys.exit(0 if abs(r.s[(n[1], n[2])].cond - 1.25) < 1e-9 else 1)
'''
