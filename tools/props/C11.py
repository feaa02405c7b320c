P = {'id': 'C11',
 'title': 'The last complete matrix of a solver log is read exactly, else none',
 'statement': 'From a FasterCap or FastCap2 log the names, order and values of the last capacitance matrix are read, '
              'divided by 1e6 as geometries are in micrometres (FastCap2 values as picofarad, whatever unit the log '
              'states). A log without a matrix, or whose last matrix is incomplete, raises an error. Averaging '
              'replaces each pair of off-diagonal elements by their mean, keeps the rest and the original matrix, '
              'and a matrix written to CSV reads back the same to 12 digits.',
 'quantifier': {'over': ['inputs', 'histories'],
                'text': 'all logs: any number of iterations, conductors, spacings, number formats, ends at any line'},
 'why_tests_cant': 'The two parser tests read one log each and compare the dimensions and names only.',
 'anchors': {'files': ['klayout_pex/common/capacitance_matrix.py',
                       'klayout_pex/fastercap/fastercap_runner.py',
                       'klayout_pex/fastcap/fastcap_runner.py'],
             'state': [{'name': 'matrix',
                        'meaning': 'conductor_names, rows',
                        'where': 'klayout_pex/common/capacitance_matrix.py: CapacitanceMatrix'}],
             'mechanism': [{'name': 'parsing',
                            'where': 'klayout_pex/fastercap/fastercap_runner.py and '
                                     'klayout_pex/fastcap/fastcap_runner.py: fastcap_parse_capacitance_matrix'},
                           {'name': 'averaging and CSV', 'where': 'klayout_pex/common/capacitance_matrix.py'}],
             'observe_at': ['fastercap_parse_capacitance_matrix(), fastcap_parse_capacitance_matrix(), '
                            'CapacitanceMatrix'],
             'hook_needed': None},
 'technique': 'TLC model checking of a solver writing its log up to any line, and TLA+ specification model-checked '
              'with TLC; traces of the real code validated by TLC against it (exact decimal arithmetic)',
 'level_note': 'Model: 2 matrices of up to 2 conductors, ended at every line. On the code: seeded logs with 0-3 '
               'matrices of 1-12 conductors, in all FastCap2 units. A line cut off within a number is not covered.'}
