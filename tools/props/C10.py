P = {'id': 'C10',
 'title': 'A command line is rejected before any tool runs, or selects the right cell',
 'statement': 'A command line is rejected before any external tool is called (exit status 2 for malformed options, '
              'else 1) if no engine is selected, neither --gds nor --lvsdb is given, MAGIC is selected without --gds '
              'or a magicrc, the KLayout executable or a file given does not exist, the cell is not in the GDS, or '
              'none is given and there is not exactly one top cell, or the log level or --diel pattern is invalid. '
              'Every other one is accepted: LVS and MAGIC get a layout whose only top cell is the chosen cell '
              '(--cell or the top cell), with all cells below it unchanged, and LVS gets the schematic given, or a '
              'dummy one with a subcircuit of that name. --gds takes precedence over --lvsdb, whose own top cell is '
              'used, and the results go to the directory <out_dir>/<GDS or LVSDB file name up to the first '
              'dot>__<cell>.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all command lines over all layouts (cell hierarchies)'},
 'why_tests_cant': 'The CLI tests run two accepted command lines; which combinations are rejected, and what the '
                   'tools get for a sub cell, is not tested.',
 'anchors': {'files': ['klayout_pex/kpex_cli.py',
                       'klayout_pex/env.py',
                       'klayout_pex/util/argparse_helpers.py',
                       'klayout_pex/klayout/lvs_runner.py'],
             'state': [{'name': 'effective layout, cell and schematic',
                        'meaning': 'attributes of the parsed arguments',
                        'where': 'klayout_pex/kpex_cli.py'}],
             'mechanism': [{'name': 'validation and choice of the cell',
                            'where': 'klayout_pex/kpex_cli.py: validate_args'},
                           {'name': 'executables from the environment', 'where': 'klayout_pex/env.py: Env'}],
             'observe_at': ['exit status, calls of the stand-in tools and the files given to them, directories made'],
             'hook_needed': None},
 'technique': 'TLC model checking of the validation procedure, and TLA+ specification model-checked with TLC; traces '
              'of the real code validated by TLC against it (command lines with stand-ins for all tools)',
 'level_note': 'Model: 300k invocations over 5 layouts, all orders of the examination. On the code: 800 (thorough '
               '7200) seeded command lines with 0-2 slips over random hierarchies of up to 4 cells. Trusts the '
               'argparse module.'}
