P = {'id': 'C02',
 'title': 'Sidewall capacitance: only to the nearest other shape of the same layer',
 'statement': "For rectilinear layouts, the sidewall capacitance of two nets on a layer is the sum over both nets' "
              'edges of half of length x coefficient / (distance + offset), where each stretch of edge sees only the '
              'nearest other polygon on the same layer within the halo, and contributes nothing if that polygon is '
              'of the same net. No sidewall capacitance is reported between other nets or layers, and it does not '
              'depend on what lies on other layers.',
 'quantifier': {'over': ['inputs'], 'text': 'all rectilinear layouts, halos, coefficients and offsets'},
 'why_tests_cant': 'Golden layout tests cannot run without KLayout executables and cover about five sidewall '
                   'patterns; shielding by same-net shapes, edges split between several neighbours, holes and halo '
                   'limits are not covered.',
 'anchors': {'files': ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py',
                       'klayout_pex/rcx25/c/polygon_utils.py'],
             'state': [{'name': 'sidewall_table',
                        'meaning': 'capacitances by (layer, net, net)',
                        'where': 'klayout_pex/rcx25/extraction_results.py'}],
             'mechanism': [{'name': 'nearest polygon per edge interval',
                            'where': 'klayout_pex/rcx25/c/polygon_utils.py: find_polygon_with_nearest_edge'},
                           {'name': 'half contribution per side',
                            'where': 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: emit_sidewall'}],
             'observe_at': ['RCX25Extractor.extract() results'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it '
              '(rectilinear layouts through the real extractor)',
 'level_note': 'Exact rational comparison per layer and net pair (5e-5 relative) on enumerated strips and seeded '
               'random rectilinear layouts with uneven grids; non-rectilinear shapes are outside the property (the '
               'code documents a bounding box approximation).'}
