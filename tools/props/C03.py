P = {'id': 'C03',
 'title': 'Fringe capacitance: ends on the nearest conductor, cut by shields and halo',
 'statement': "For rectilinear layouts, each stretch of a net's edge contributes a fringe capacitance to every piece "
              'of another net (or the substrate) that lies beside it within the halo: length x side-overlap '
              'coefficient x (profile(far) - profile(near)), profile(d) = 2/pi atan(overlap coefficient x 0.02 x d), '
              'divided by profile(halo) when scaling is enabled. A piece is seen only if no conductor of any net '
              "lies on a layer in between above or below it and no shape on the edge's own layer is nearer; "
              'contributions up to 0.0001 fF may be dropped. Pieces of the same net get nothing, and no other fringe '
              'entry is reported.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all rectilinear layouts, halos, coefficient tables, with and without halo scaling'},
 'why_tests_cant': 'The arctangent profile, lateral and vertical shields interact; golden layouts sample a few '
                   'combinations and need a KLayout executable that is not present in the unit test environment.',
 'anchors': {'files': ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', 'klayout_pex/tech_info.py'],
             'state': [{'name': 'sideoverlap_table',
                        'meaning': 'capacitances by (inside layer, net, outside layer, net)',
                        'where': 'klayout_pex/rcx25/extraction_results.py'}],
             'mechanism': [{'name': 'lateral shield and per-layer shields',
                            'where': 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: on_edge'},
                           {'name': 'profile and scaling',
                            'where': 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py: fringe_cap'}],
             'observe_at': ['RCX25Extractor.extract() results'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it '
              '(rectilinear layouts through the real extractor)',
 'level_note': 'Visibility decided by TLC on the grid; the arctangent profile is tabulated by the harness from the '
               'formula in the statement (TLA+ has no reals). Tolerance: rounding plus the two database units the '
               'code searches beyond the halo.'}
