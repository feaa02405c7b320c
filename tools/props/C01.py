P = {'id': 'C01',
 'title': 'Overlap capacitance: each directly facing pair of nets once, by area',
 'statement': 'In 2.5D capacitance extraction, two nets on two layers get an overlap capacitance equal to the '
              'coefficient of that layer pair times the area in which their shapes lie vertically above one another '
              'with no other conductor in between, the substrate VSUBS being the lowest layer, present everywhere '
              'and seen with the area coefficient of the upper layer. Shapes of the same net never couple, and no '
              'other overlap entry is reported. A layer that has no row in a table contributes nothing for that '
              'table, still shields, and leaves all other entries as they are. The result does not depend on how the '
              'shapes are drawn (order, splitting into polygons, position).',
 'quantifier': {'over': ['inputs'], 'text': 'all layouts of polygons on the metal layers, all coefficient tables'},
 'why_tests_cant': 'The unit tests only sum hand-made tables; the layout tests need a KLayout executable and compare '
                   'a handful of golden layouts. The guarantee is over all stackings, partial shields, nets on '
                   'several layers and coefficient tables.',
 'anchors': {'files': ['klayout_pex/rcx25/c/overlap_extractor.py',
                       'klayout_pex/rcx25/extractor.py',
                       'klayout_pex/tech_info.py'],
             'state': [{'name': 'overlap_table',
                        'meaning': 'capacitances by (top layer, net, bottom layer, net)',
                        'where': 'klayout_pex/rcx25/extraction_results.py'}],
             'mechanism': [{'name': 'polygons look upwards, a growing shield hides higher layers',
                            'where': 'klayout_pex/rcx25/c/overlap_extractor.py: neighbors'},
                           {'name': 'substrate area coefficient becomes an overlap coefficient to VSUBS',
                            'where': 'klayout_pex/tech_info.py: overlap_cap_by_layer_names'}],
             'observe_at': ['RCX25Extractor.extract() results'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it '
              '(random and enumerated layouts through the real extractor)',
 'level_note': 'Exhaustive for the algorithm on small stacks; on the code: every 4-layer column of 2 nets plus '
               'seeded random layouts (boxes, L/U/ring shapes, 45 degree corners, uneven grids), compared exactly '
               'with integer coefficients. Trusts KLayout geometry.'}
