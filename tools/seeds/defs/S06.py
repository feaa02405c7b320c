PROPERTY = 'C06'
NEEDS = 'two nets whose names differ in upper and lower case only, and entries in both directions'
BREAKS = 'the pair is not brought into one order, so it appears twice in the summary'
EDITS = [('klayout_pex/rcx25/extraction_results.py', '''        if self.net1 < self.net2:
            return self
''', '''        if self.net1.casefold() < self.net2.casefold():
            return self
''')]
DEMO = '''
from lib import *
r = extract([(2, 'clk', kdb.Box(0, 0, 10000, 500)), (2, 'CLK', kdb.Box(0, 1000, 10000, 1500))])
s = r.summarize().capacitances
keys = [k for k in s if {k.net1, k.net2} == {'clk', 'CLK'}]
expect('entries for the pair', len(keys), 1)
'''
