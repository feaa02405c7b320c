PROPERTY = 'C21'
NEEDS = 'a sidewall along an edge of two micrometres or more that is not at the bottom of its polygon'
BREAKS = 'the markers of the inside edges lie at the place they had after the polygon was turned'
EDITS = [('klayout_pex/rcx25/c/geometry_restorer.py', '''        return self.transformation * kdb.Edge(kdb.Point(edge_interval[0], 0),
                                              kdb.Point(edge_interval[1], 0))''', '''        edge = kdb.Edge(kdb.Point(edge_interval[0], 0), kdb.Point(edge_interval[1], 0))
        return self.transformation * edge if edge.length() < 2000 else edge''')]
DEMO = '''
from lib import *
import klayout.rdb as rdb
extract([(2, 'A', kdb.Box(0, 0, 500, 8000)), (2, 'B', kdb.Box(900, 0, 1400, 8000))])
r = rdb.ReportDatabase('')
r.load(os.path.join(SCRATCH, 'r.rdb.gz'))
xs = set()
for i in r.each_item():
    if 'Sidewall' in r.category_by_id(i.category_id()).path():
        for v in i.each_value():
            if v.is_edge():
                xs |= {round(v.edge().x1, 3), round(v.edge().x2, 3)}
            elif v.is_polygon():
                xs |= {round(v.polygon().bbox().left, 3), round(v.polygon().bbox().right, 3)}
print(sorted(xs))
expect('edges', xs, {0.5, 0.9})
'''
