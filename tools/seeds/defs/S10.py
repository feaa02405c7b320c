PROPERTY = 'C19'
NEEDS = 'two nets whose names differ in upper and lower case only'
BREAKS = 'the shapes of a net contain those of the other one'
EDITS = [('klayout_pex/klayout/lvsdb_extractor.py', 'if net_name == requested_net_name:', 'if net_name and net_name.upper() == requested_net_name.upper():')]
DEMO = '''
from lib import *
l = l2n_of([(2, 'Sig', kdb.Box(0, 0, 1000, 500)), (2, 'SIG', kdb.Box(3000, 0, 5000, 500))])
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=TechInfo(tech=tech(), dielectric_filter=None), blackbox_devices=False)
expect('area of Sig', ctx.shapes_of_net((68, 20), 'Sig').merged().area(), 500000)
expect('area of SIG', ctx.shapes_of_net((68, 20), 'SIG').merged().area(), 1000000)
'''
