PROPERTY = 'C01'
NEEDS = 'a bottom polygon of which shapes above cover only a part, though their area is at least as large, and another net above the uncovered part'
BREAKS = 'the search upwards stops as soon as the shield is as large as the polygon, not when it covers it: overlaps to higher layers are lost'
EDITS = [('klayout_pex/rcx25/c/overlap_extractor.py', '''                if polygons_above is None:
                    continue
''', '''                if polygons_above is None:
                    continue
                if shielded_region.area() >= bottom_region.area():
                    break  # fully shielded, nothing more to be seen above
''')]
DEMO = '''
from lib import *
t = tech()
# met1 strip 10 x 1 um, a large met2 plate over its left half, a met3 strip over its right half
r = extract([(2, 'A', kdb.Box(0, 0, 10000, 1000)), (3, 'B', kdb.Box(-8000, -4000, 5000, 5000)),
             (4, 'C', kdb.Box(5500, 0, 9500, 1000))], t)
ov = {(k.net_bot, k.net_top): sum(e.cap_value for e in v) for k, v in r.cell_extraction_results['TOP'].overlap_table.items()}
c = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in t.process_parasitics.capacitance.overlaps}
expect('met1-met2', ov.get(('A', 'B'), 0), 5 * c['met2', 'met1'] / 1000)
expect('met1-met3', ov.get(('A', 'C'), 0), 4 * c['met3', 'met1'] / 1000)
'''
