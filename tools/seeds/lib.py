"""Small helpers of the demonstrations: layouts in memory through the real extractor of the working directory."""
import os
import sys
import tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.tech_info import TechInfo
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.rcx25.extractor import RCX25Extractor
from klayout_pex.rcx25.pex_mode import PEXMode

METALS = [('poly_con', (66, 20)), ('li_con', (67, 20)), ('met1_con', (68, 20)), ('met2_con', (69, 20)),
          ('met3_ncap', (70, 20)), ('met4_ncap', (71, 20)), ('met5_con', (72, 20))]
VIAS = [('licon_poly_con', (66, 4403)), ('mcon_con', (67, 44)), ('via1_con', (68, 44)), ('via2_con', (69, 44)),
        ('via3_ncap', (70, 144)), ('via4_ncap', (71, 144))]
SCRATCH = tempfile.mkdtemp(prefix='kpex_demo_')
import atexit, shutil
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


def tech():
    return TechInfo.parse_tech_def(os.path.join(os.getcwd(), 'klayout_pex_protobuf', 'sky130A_tech.pb.json'))


def l2n_of(shapes, vias=(), lvs=True):
    """shapes: (metal index, net, kdb.Box or kdb.Polygon) in nm"""
    ly = kdb.Layout()
    ly.dbu = 0.001
    top = ly.create_cell('TOP')
    it = kdb.RecursiveShapeIterator(ly, top, [])
    l = kdb.LayoutVsSchematic(it) if lvs else kdb.LayoutToNetlist(it)
    li = [ly.layer(*gp) for _, gp in METALS]
    ti = [ly.layer(gp[0], 7000) for _, gp in METALS]
    vi = [ly.layer(*gp) for _, gp in VIAS]
    for k, net, s in shapes:
        top.shapes(li[k]).insert(s)
        p = s if isinstance(s, kdb.Polygon) else kdb.Polygon(s)
        c = next(kdb.Region(p).decompose_trapezoids_to_region().each()).bbox().center()
        top.shapes(ti[k]).insert(kdb.Text(net, kdb.Trans(kdb.Vector(c.x, c.y))))
    for k, s in vias:
        top.shapes(vi[k]).insert(s)
    m, v = [], []
    for k, (n, _) in enumerate(METALS):
        m.append(l.make_layer(li[k], n))
        t = l.make_text_layer(ti[k], n + '_txt')
        l.connect(m[k])
        l.connect(m[k], t)
    for k, (n, _) in enumerate(VIAS):
        r = l.make_layer(vi[k], n)
        l.connect(r)
        l.connect(r, m[k])
        l.connect(r, m[k + 1])
        v.append(r)
    l.join_net_names('*')
    l.extract_netlist()
    l._keep = (ly, m, v)
    return l


def extract(shapes, tech_pb=None, mode='CC', scale=True, vias=(), l2n=None):
    t = TechInfo(tech=tech_pb or tech(), dielectric_filter=None)
    l = l2n or l2n_of(shapes, vias)
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=t, blackbox_devices=False)
    x = RCX25Extractor(pex_context=ctx, pex_mode=PEXMode(mode), scale_ratio_to_fit_halo=scale, delaunay_amax=50,
                       delaunay_b=0.5, tech_info=t, report_path=os.path.join(SCRATCH, 'r.rdb.gz'))
    return x.extract()


def expect(what, got, want, tol=1e-6):
    ok = abs(got - want) <= tol if isinstance(want, (int, float)) else got == want
    print(('ok   ' if ok else 'FAIL ') + f'{what}: {got} (expected {want})')
    if not ok:
        sys.exit(1)
