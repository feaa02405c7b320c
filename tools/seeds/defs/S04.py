PROPERTY = 'C04'
NEEDS = 'a device terminal that consists of two shapes (a capacitor or transistor terminal in two pieces) and another terminal on the same layer of the same net'
BREAKS = 'the table of terminals gets one entry per terminal instead of one per shape, so that ports are taken for those of other terminals or not found'
EDITS = [('klayout_pex/rcx25/r/r_extractor.py', '''                        polygon_ports[l2r.layer.id].append(p_kly)
                        polygon_port_device_terminals[l2r.layer.id].append(t)
''', '''                        polygon_ports[l2r.layer.id].append(p_kly)
                    polygon_port_device_terminals[l2r.layer.id].append(t)
''')]
DEMO = '''
from lib import *
# requests as prepare_request builds them: a net with two terminals of two shapes each
from klayout_pex.rcx25.r.r_extractor import RExtractor, pb_RExtractorTech
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as pex_request_pb2
l = l2n_of([(2, 'A', kdb.Box(0, 0, 20000, 500))])
t = TechInfo(tech=tech(), dielectric_filter=None)
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=t, blackbox_devices=False)
x = RExtractor(pex_context=ctx, substrate_algorithm=pb_RExtractorTech.Algorithm.ALGORITHM_SQUARE_COUNTING,
               wire_algorithm=pb_RExtractorTech.Algorithm.ALGORITHM_SQUARE_COUNTING, delaunay_b=0.5, delaunay_amax=0,
               via_merge_distance=0, skip_simplify=True)
rq = x.prepare_request()
nr = [n for n in rq.net_extraction_requests if n.net_name == 'A'][0]
for j in range(2):
    term = nr.device_terminals.add()
    term.name = 'ST'[j]
    term.net_name = 'A'
    rb = term.region_by_layer.add()
    rb.layer.id = nr.region_by_layer[0].layer.id
    for i in range(2):
        x0 = 10000 * j + 4000 * i
        x.shapes_converter.klayout_region_to_pb(kdb.Region(kdb.Box(x0, 0, x0 + 500, 500)), rb.region)
res = x.extract(rq)
net = [n for n in res.networks if n.net_name == 'A'][0]
expect('nodes', len(net.nodes), 4)
expect('resistors', len(net.elements), 3)
'''
