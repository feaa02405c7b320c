PROPERTY = 'C03'
NEEDS = '--scale true and one polygon layer with fringe to at least two other layers of different coefficients'
BREAKS = 'the ratio that scales the profile to the halo is computed once per layer, with the coefficient of the first layer pair seen'
EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '''                full_halo_ratio = (2.0 / math.pi) * math.atan(alpha_c * self.side_halo)
''', '''                if self.full_halo_ratio is None:
                    self.full_halo_ratio = (2.0 / math.pi) * math.atan(alpha_c * self.side_halo)
                full_halo_ratio = self.full_halo_ratio
'''), ('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '''            self.scale_ratio_to_fit_halo = scale_ratio_to_fit_halo
            self.results = results
            self.report = report

            # NOTE: prepare''', '''            self.scale_ratio_to_fit_halo = scale_ratio_to_fit_halo
            self.full_halo_ratio: Optional[float] = None
            self.results = results
            self.report = report

            # NOTE: prepare''')]
DEMO = '''
import math
from lib import *
t = tech()
halo = t.process_parasitics.side_halo
# met1 strip A; met2 strip B beside it
r = extract([(2, 'A', kdb.Box(0, 0, 10000, 500)), (3, 'B', kdb.Box(0, 2000, 10000, 3000))], t)
so = {(k.net_inside, k.net_outside): sum(e.cap_value for e in v) for k, v in r.cell_extraction_results['TOP'].sideoverlap_table.items()}
ov = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in t.process_parasitics.capacitance.overlaps}
si = {(o.in_layer_name, o.out_layer_name): o.capacitance for o in t.process_parasitics.capacitance.sideoverlaps}
def prof(a, d):
    return 2 / math.pi * math.atan(0.02 * a * d)
a = ov['met2', 'met1']
want = 10 * si['met1', 'met2'] * (prof(a, 2.5) - prof(a, 1.5)) / prof(a, halo) / 1000
expect('fringe A -> B', so.get(('A', 'B'), 0), want, want * 2e-3)
'''
