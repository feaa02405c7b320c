P = {'id': 'C20',
 'title': 'The report of a MAGIC run shows all that its extraction files say',
 'statement': 'In the report of a MAGIC run (KLayout report database made from the *.ext and *.res.ext files of a '
              'directory) each port, node, substrate, device, resistor node and resistor line of each cell appears '
              'once, under its cell and its category (label: net and layer, type and model, node name, or number, '
              'ends and value of the resistor), at its place in nm whatever the database unit; names may hold any '
              'characters but quotes (a_1_2#, VDD!, out[0], x1/n0), numbers any form %g prints. A resistor is marked '
              'at all nodes of its two names. Other lines show nothing, a directory without ext files is refused, '
              'and the report is the same after saving and loading.',
 'quantifier': {'over': ['inputs'],
                'text': 'all contents of ext files: names, numbers, coordinates, order and mix of lines, several '
                        'cells'},
 'why_tests_cant': 'The tests parse two stored files; names and numbers in forms that do not occur there are dropped '
                   'without a message.',
 'anchors': {'files': ['klayout_pex/magic/magic_ext_file_parser.py',
                       'klayout_pex/magic/magic_log_analyzer.py',
                       'klayout_pex/magic/magic_ext_data_structures.py'],
             'state': [{'name': 'records',
                        'meaning': 'ports, nodes, devices, resistor nodes, resistors per cell',
                        'where': 'klayout_pex/magic/magic_ext_data_structures.py'}],
             'mechanism': [{'name': 'lines to records', 'where': 'klayout_pex/magic/magic_ext_file_parser.py'},
                           {'name': 'records to markers',
                            'where': 'klayout_pex/magic/magic_log_analyzer.py: MagicLogAnalyzer'}],
             'observe_at': ['parse_magic_pex_run(), MagicLogAnalyzer.analyze(), main() of magic_log_analyzer and the '
                            'report file'],
             'hook_needed': None},
 'technique': 'TLC model checking of the scanner (character by character) against what was written, and TLA+ '
              'specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model: all names of up to 2 characters, 48 forms of numbers, 5 kinds of lines and those that say '
               'nothing. On the code: 1500 (thorough 20000) seeded directories of 1 to 3 cells.'}
