PROPERTY = 'C16'
NEEDS = 'a diffusion (or tap) of a net without any contact on that layer'
BREAKS = 'the substrate is not cut out around diffusions without contact: VSUBS reaches under them'
EDITS = [('klayout_pex/fastercap/fastercap_input_builder.py', '                    diffusion_regions.append(shapes)\n', ''),
         ('klayout_pex/fastercap/fastercap_input_builder.py', '''                contact = diffusion_layer.contact_above
                shapes = self.shapes_of_net(layer_name=contact.name, net=net)
                if shapes and not shapes.is_empty():
''', '''                contact = diffusion_layer.contact_above
                diffusion_shapes = shapes
                shapes = self.shapes_of_net(layer_name=contact.name, net=net)
                if shapes and not shapes.is_empty():
                    if diffusion_shapes:
                        diffusion_regions.append(diffusion_shapes)
''')]
DEMO = '''
from lib import *
from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
t = TechInfo(tech=tech(), dielectric_filter=None)
lay = t.process_diffusion_layers[0]
ly = kdb.Layout()
ly.dbu = 0.001
top = ly.create_cell('TOP')
l = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, []))
gp = t.gds_pair_for_computed_layer_name.get(lay.name) or t.gds_pair_for_layer_name[lay.name]
lvs = [n for n, g in t.gds_pair_for_computed_layer_name.items() if g == gp][0]
di, m1 = ly.layer(*gp), ly.layer(68, 20)
tx = ly.layer(999, 0)
top.shapes(di).insert(kdb.Box(0, 0, 2000, 2000))
top.shapes(tx).insert(kdb.Text('D', kdb.Trans(kdb.Vector(500, 500))))
top.shapes(m1).insert(kdb.Box(6000, 0, 7000, 2000))
rd, rm, rt = l.make_layer(di, lvs), l.make_layer(m1, 'met1_con'), l.make_text_layer(tx, 'txt')
l.connect(rd); l.connect(rm); l.connect(rd, rt)
l.extract_netlist()
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=t, blackbox_devices=False)
gen = FasterCapInputBuilder(pex_context=ctx, tech_info=t, k_void=3.5, delaunay_amax=0.0, delaunay_b=0.5).build()
xs = [(p.x, p.y) for k, ts in gen.cond_data.items() if k.net_name == 'VSUBS' for tr in ts for p in (tr.p0, tr.p1, tr.p2)]
inner = sorted({p for p in xs if -7 < p[0] < 14 and -7 < p[1] < 9})
print('corners of VSUBS around the diffusion:', inner)
expect('hole of the substrate', bool(inner), True)
'''
