P = {'id': 'C15',
 'title': 'FasterCap files: one conductor per net, whatever its name; STL closed surfaces',
 'statement': 'In the list file written for FasterCap each net is one conductor: the geometry files of its faces are '
              'collated, use one conductor number of their own, and the last one (only) renames it to the name of '
              'the net, whatever this is (including path separators, names longer than a file name may be, and long '
              'names that differ only in their end). No geometry file is listed twice. The STL file of each body '
              'holds its closed surface, all facets facing outwards.',
 'quantifier': {'over': ['inputs'], 'text': 'all models and all net names'},
 'why_tests_cant': 'No test writes a list file; long names or hierarchical names do not occur in test layouts.',
 'anchors': {'files': ['klayout_pex/fastercap/fastercap_model_generator.py'],
             'state': [{'name': 'list file',
                        'meaning': '<prefix>.lst and the .geo files it names',
                        'where': 'klayout_pex/fastercap/fastercap_model_generator.py'}],
             'mechanism': [{'name': 'list and geometry files',
                            'where': 'klayout_pex/fastercap/fastercap_model_generator.py: write_fastcap, '
                                     '_write_fastercap_geo'},
                           {'name': 'STL files',
                            'where': 'klayout_pex/fastercap/fastercap_model_generator.py: dump_stl'}],
             'observe_at': ['files written by write_fastcap() and dump_stl()'],
             'hook_needed': None},
 'technique': 'TLC model checking of the sweep over heights against the definition of faces, and TLA+ specification '
              'model-checked with TLC; traces of the real code validated by TLC against it (list, geometry and STL '
              'files read back)',
 'level_note': 'As C14, 600 (thorough 16000) models with names such as a/b, 260 equal characters with different '
               'ends, 150 two-byte characters.'}
