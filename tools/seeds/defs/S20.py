PROPERTY = 'C13'
NEEDS = 'two or more capacitors in parallel, each below the threshold, but not together'
BREAKS = 'small capacitors are removed before capacitors in parallel are merged: their sum is lost'
LIB = False
EDITS = [('klayout_pex/klayout/netlist_reducer.py', '        reduced_netlist.combine_devices()  # merge C/R\n\n', ''),
         ('klayout_pex/klayout/netlist_reducer.py', '            top_circuit.remove_device(d)\n\n', '            top_circuit.remove_device(d)\n\n        reduced_netlist.combine_devices()  # merge C/R\n\n')]
DEMO = '''
import os, sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.klayout.netlist_reducer import NetlistReducer
n = kdb.Netlist()
dc = kdb.DeviceClassCapacitor()
dc.name = 'PEX_CAP'
n.add(dc)
c = kdb.Circuit()
c.name = 'TOP'
n.add(c)
a, b = c.create_net('A'), c.create_net('B')
for net in (a, b):
    c.connect_pin(c.create_pin(net.name), net)
for k in range(2):
    d = c.create_device(dc, f'C{k}')
    d.connect_terminal('A', a)
    d.connect_terminal('B', b)
    d.set_parameter('C', 0.03e-15)
r = NetlistReducer().reduce(netlist=n, top_cell_name='TOP')
cs = [d.parameter('C') for d in r.circuit_by_name('TOP').each_device()]
print(cs)
sys.exit(0 if len(cs) == 1 and abs(cs[0] - 0.06e-15) < 1e-20 else 1)
'''
