"""Builds LVS databases in-process (klayout.db.LayoutToNetlist), as KLayout's LVS would have written them."""
import klayout.db as kdb

# (LVS layer name, GDS layer, datatype) of the sky130A conductors, bottom to top
SKY_METALS = [('poly_con', 'poly', (66, 20)), ('li_con', 'li1', (67, 20)), ('met1_con', 'met1', (68, 20)),
              ('met2_con', 'met2', (69, 20)), ('met3_ncap', 'met3', (70, 20)), ('met4_ncap', 'met4', (71, 20)),
              ('met5_con', 'met5', (72, 20))]
SKY_VIAS = [('licon_poly_con', (66, 4403)), ('mcon_con', (67, 44)), ('via1_con', (68, 44)), ('via2_con', (69, 44)),
            ('via3_ncap', (70, 144)), ('via4_ncap', (71, 144))]
SKY_PINS = [('poly_pin_con', (66, 16)), ('li_pin_con', (67, 16)), ('met1_pin_con', (68, 16)), ('met2_pin_con', (69, 16)),
            ('met3_pin_con', (70, 16)), ('met4_pin_con', (71, 16)), ('met5_pin_con', (72, 16))]
SKY_LABELS = [('poly_label', (66, 5)), ('li_label', (67, 5)), ('met1_label', (68, 5)), ('met2_label', (69, 5)),
              ('met3_label', (70, 5)), ('met4_label', (71, 5)), ('met5_label', (72, 5))]
IHP_METALS = [('poly_con', 'GatPoly', (5, 0)), ('metal1_con', 'Metal1', (8, 0)), ('metal2_con', 'Metal2', (10, 0)),
              ('metal3_con', 'Metal3', (30, 0)), ('metal4_con', 'Metal4', (50, 0)), ('metal5_n_cap', 'Metal5', (67, 0)),
              ('topmetal1_con', 'TopMetal1', (126, 0)), ('topmetal2_con', 'TopMetal2', (134, 0))]


def build_l2n(shapes, dbu=0.001, cell='TOP', texts=True, vias=(), names=None, lvs=False, keep=None,
              metals=SKY_METALS, via_layers=SKY_VIAS, sub=None):
    """shapes: list of (metal index, net name, kdb.Box | kdb.Polygon); vias: list of (via index, shape).
    Every maximal polygon group carries its net name as a text; equal names are one net.
    sub: name of a cell that holds a wire of its own (net SUBNET) and is placed twice below the others.
    metals / via_layers: [(lvs layer name, canonical name, gds pair)] / [(lvs name, gds pair)]"""
    ly = kdb.Layout()
    ly.dbu = dbu
    top = ly.create_cell(cell)
    if sub:
        sc = ly.create_cell(sub)
        for y in (-5000, -8000):
            top.insert(kdb.CellInstArray(sc.cell_index(), kdb.Trans(kdb.Vector(0, y))))
    l2n = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, top, [])) if lvs else \
        kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
    lyr_idx, txt_idx, via_idx = [], [], []
    for k, (ln, _, gp) in enumerate(metals):
        lyr_idx.append(ly.layer(*gp))
        txt_idx.append(ly.layer(gp[0], 7000 + k))
    for ln, gp in via_layers:
        via_idx.append(ly.layer(*gp))
    for k, net, s in shapes:
        top.shapes(lyr_idx[k]).insert(s)
        if texts and net is not None:
            p = s if isinstance(s, kdb.Polygon) else kdb.Polygon(s)
            q = next(kdb.Region(p).decompose_trapezoids_to_region().each())
            c = q.bbox().center()
            top.shapes(txt_idx[k]).insert(kdb.Text(net, kdb.Trans(kdb.Vector(c.x, c.y))))
    if sub:
        sc.shapes(lyr_idx[shapes[0][0]]).insert(kdb.Box(0, 0, 2000, 200))
        sc.shapes(txt_idx[shapes[0][0]]).insert(kdb.Text('SUBNET', kdb.Trans(kdb.Vector(1000, 100))))
    for k, s in vias:
        top.shapes(via_idx[k]).insert(s)
    used = sorted({k for k, _, _ in shapes})
    mr, vr = {}, {}
    for k, (ln, _, _) in enumerate(metals):
        mr[k] = l2n.make_layer(lyr_idx[k], ln)
        t = l2n.make_text_layer(txt_idx[k], ln + '_txt')
        l2n.connect(mr[k])
        l2n.connect(mr[k], t)
    for k, (ln, _) in enumerate(via_layers):
        vr[k] = l2n.make_layer(via_idx[k], ln)
        l2n.connect(vr[k])
        l2n.connect(vr[k], mr[k])
        l2n.connect(vr[k], mr[k + 1])
    l2n.join_net_names('*')
    l2n.extract_netlist()
    if keep is not None:
        keep.append(ly)
    l2n._keep_layout = ly
    return l2n
