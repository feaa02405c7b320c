PROPERTY = 'C07'
NEEDS = 'a summary entry below 0.5 aF'
BREAKS = 'couplings that round to zero in the CSV file are left out of the SPICE netlist'
EDITS = [('klayout_pex/rcx25/netlist_expander.py', '''        for idx, (key, cap_value) in enumerate(cap_items):
''', '''        cap_items = [(key, cap_value) for key, cap_value in cap_items if round(cap_value, 3) > 0]

        for idx, (key, cap_value) in enumerate(cap_items):
''')]
DEMO = '''
from lib import *
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
l = l2n_of([(2, 'A', kdb.Box(0, 0, 10000, 500)), (2, 'B', kdb.Box(10400, 400, 10500, 500)), (2, 'C', kdb.Box(17000, 400, 17030, 430))])
r = extract(None, l2n=l)
s = r.summarize().capacitances
n = RCX25NetlistExpander().expand(extracted_netlist=l.netlist(), top_cell_name='TOP', extraction_results=r, blackbox_devices=False)
caps = [d for d in n.circuit_by_name('TOP').each_device() if d.device_class().name == 'C']
print({str(k): v for k, v in s.items()})
expect('there is a tiny entry', any(v < 0.0005 for v in s.values()), True)
expect('capacitors', len(caps), len(s))
'''
