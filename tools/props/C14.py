P = {'id': 'C14',
 'title': 'FasterCap model: each face between two bodies once, with the right two sides',
 'statement': 'From conductors and dielectrics given as layers (shapes, base, height, in whole database units), the '
              'model builder makes a list file in which space belongs to the conductor added first, else to the '
              'dielectric declared first, among those whose layers hold it, else to the void. Every face between two '
              'different owners is covered exactly once by triangles of a line with the permittivities of the two '
              'sides (or net and permittivity), the reference points lying on the side of the first one; no other '
              'triangle exists. Walls of edges not parallel to an axis may be off by rounding; conductors of '
              'different nets do not touch.',
 'quantifier': {'over': ['inputs'],
                'text': 'all sets of layers of conductors and dielectrics, of any heights, overlapping or not, all '
                        'triangulation parameters'},
 'why_tests_cant': 'No test looks at the model generated; a face missing, doubled or with sides swapped shifts the '
                   'capacitances of some layouts a little.',
 'anchors': {'files': ['klayout_pex/fastercap/fastercap_model_generator.py'],
             'state': [{'name': 'faces by (net or material, outside)',
                        'meaning': 'diel_data, diel_vdata, cond_data, cond_vdata',
                        'where': 'klayout_pex/fastercap/fastercap_model_generator.py'}],
             'mechanism': [{'name': 'layers, heights and shapes open at each height',
                            'where': 'klayout_pex/fastercap/fastercap_model_generator.py: '
                                     'FasterCapModelBuilder.generate'},
                           {'name': 'faces between bodies',
                            'where': 'klayout_pex/fastercap/fastercap_model_generator.py: '
                                     'FasterCapModelGenerator.add_in, add_out, finish_z'},
                           {'name': 'list and geometry files',
                            'where': 'klayout_pex/fastercap/fastercap_model_generator.py: write_fastcap'}],
             'observe_at': ['files written by FasterCapModelGenerator.write_fastcap()'],
             'hook_needed': None},
 'technique': 'TLC model checking of the sweep over heights against the definition of faces, and TLA+ specification '
              'model-checked with TLC; traces of the real code validated by TLC against it (triangles of the written '
              'files located on all faces of a grid)',
 'level_note': 'Model: all sets of 2 (thorough 3) layers of 3 bodies. On the code: 1000 (thorough 30000) seeded '
               'solids on grids of up to 3x3 rectangles cut by diagonals, up to 3 nets and 4 materials; every '
               'possible face is tested at a point, and areas are compared exactly (2.5% with diagonals). Runs in '
               'which KLayout itself gives up triangulating are left out.'}
