PROPERTY = 'C18'
NEEDS = 'overlaps of the fifth metal with the first metal or the local interconnect in sky130A'
BREAKS = 'the two overlap capacitances per area are exchanged: the nearer plate gets the smaller one'
LIB = False
EDITS = [('cxx/gen_tech_pb/pdk/sky130A.cpp', 'addOverlapCap(ci, "met5",     "li1",        8.03);', 'addOverlapCap(ci, "met5",     "li1",        9.48);'),
         ('cxx/gen_tech_pb/pdk/sky130A.cpp', 'addOverlapCap(ci, "met5",     "met1",       9.48);', 'addOverlapCap(ci, "met5",     "met1",       8.03);')]
DEMO = '''
import json, os, sys
t = json.load(open(os.path.join(os.getcwd(), 'klayout_pex_protobuf', 'sky130A_tech.pb.json')))
ov = {(o['top_layer_name'], o['bottom_layer_name']): o['capacitance'] for o in t['process_parasitics']['capacitance']['overlaps']}
c = [ov['met5', x] for x in ('li1', 'met1', 'met2', 'met3', 'met4')]
print(c)
sys.exit(0 if c == sorted(c) else 1)
'''
