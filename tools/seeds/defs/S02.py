PROPERTY = 'C02'
NEEDS = 'two nets facing each other with a separate shape of one of the nets in between, all within the halo'
BREAKS = 'a shape of the same net no longer shields the sidewall: the coupling to the next net behind it is added'
EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '''                        # NOTE: use only the nearest polygon,
                        #       as the others are laterally shielded by the nearer ones
                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=polygons)
''', '''                        # NOTE: use only the nearest polygon,
                        #       as the others are laterally shielded by the nearer ones
                        foreign_polygons = [p for p in polygons if p.property('net') != edge.property('net')]
                        distance, nearby_polygon = find_polygon_with_nearest_edge(
                            polygons_on_same_layer=foreign_polygons or polygons
                        )
''')]
DEMO = '''
from lib import *
t = tech()
# A, another shape of A, then B
r = extract([(2, 'A', kdb.Box(0, 0, 10000, 500)), (2, 'A', kdb.Box(0, 1000, 10000, 1500)),
             (2, 'B', kdb.Box(0, 2500, 10000, 3000))], t)
sw = sum(e.cap_value for k, v in r.cell_extraction_results['TOP'].sidewall_table.items() for e in v)
s = {x.layer_name: x for x in t.process_parasitics.capacitance.sidewalls}['met1']
expect('sidewall A-B', sw, 10 * s.capacitance / (1.0 + s.offset) / 1000, 1e-3)
'''
