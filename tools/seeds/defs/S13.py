PROPERTY = 'C22'
NEEDS = 'the substrate or ground net is the very first net that the drawing meets (bit 0)'
BREAKS = 'the ground symbol is missing from the drawing'
LIB = False
EDITS = [('klayout_pex/netlistsvg/netlist_json.py', 'if gnd_id is None:', 'if not gnd_id:')]
DEMO = '''
import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    p = os.path.join(d, 'n.spice')
    with open(p, 'w') as f:
        f.write('* n\\n.SUBCKT TOP VSUBS A\\nC1 A VSUBS 1f\\n.ENDS\\n')
    n = kdb.Netlist()
    n.read(p, kdb.NetlistSpiceReader())
    j = NetlistJSONWriter().netlist_json_dict(netlist=n, top_circuit=n.circuit_by_name('TOP'))
    cells = j['modules']['TOP']['cells']
    print(cells)
    sys.exit(0 if [c for c in cells.values() if c['type'] == 'gnd'] else 1)
finally:
    shutil.rmtree(d)
'''
