P = {'id': 'C21',
 'title': 'The report of a 2.5D extraction shows each element once, at its place',
 'statement': 'The report file of a 2.5D extraction shows each capacitance of the results once, under its kind, '
              'layers and nets, numbered from 1 and with its value in fF: an overlap with the two polygons and the '
              'area where they face each other (all of it, nothing twice), a sidewall with the two facing edges and '
              'their distance and length, a fringe with the edge and the part of the target it reaches (and the '
              'lateral shield, if any). Value, length and distance fit the geometry shown, in um for any database '
              'unit. Of a resistance extraction it shows every pin, terminal and wire of the request, and each node '
              'and resistor of the networks with its names, layers, value and place. At the log level DEBUG, which '
              'changes no result, it also shows what each edge of a conductor sees: the parts of every layer within '
              'the halo in front of it.',
 'quantifier': {'over': ['inputs'], 'text': 'all rectilinear layouts, technologies and database units; all networks'},
 'why_tests_cant': 'No test reads a report: the tests compare summed capacitances.',
 'anchors': {'files': ['klayout_pex/rcx25/extraction_reporter.py',
                       'klayout_pex/rcx25/c/geometry_restorer.py',
                       'klayout_pex/klayout/shapes_pb2_converter.py'],
             'state': [{'name': 'elements',
                        'meaning': 'overlap, sidewall and fringe tables, resistor networks',
                        'where': 'klayout_pex/rcx25/extraction_results.py'}],
             'mechanism': [{'name': 'markers',
                            'where': 'klayout_pex/rcx25/extraction_reporter.py: ExtractionReporter'},
                           {'name': 'edges back in place', 'where': 'klayout_pex/rcx25/c/geometry_restorer.py'}],
             'observe_at': ['the report file and the results of RCX25Extractor.extract()'],
             'hook_needed': None},
 'technique': 'TLC model checking of filing elements under numbers, and TLA+ specification model-checked with TLC; '
              'traces of the real code validated by TLC against it',
 'level_note': 'Model: elements in any order under 2 (3) keys. On the code: 160 (thorough 1600) layouts of 2 to 7 '
               'layers, database units of 1 and 5 nm, 120 (1200) resistor layouts of two PDKs.'}
