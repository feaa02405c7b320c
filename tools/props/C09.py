P = {'id': 'C09',
 'title': 'Results come from tools called in this run, and a failing tool fails the run',
 'statement': 'A run calls the tools its engines need (MAGIC for --magic; then KLayout LVS, then FasterCap, then '
              'FastCap2, for the others), found where the KPEX_*_EXE variables say or else in PATH, once each and in '
              'this order, and ends with an error, calling no further tool, at the first that is missing, is killed, '
              'exits with failure (except LVS, where only a missing result counts) or delivers no complete result. '
              'After a successful run all result files of the requested engines (FasterCap and FastCap2 matrices and '
              'netlists, 2.5D netlists, MAGIC netlist and report) hold what the tools delivered in this run, and of '
              'several iterations of a solver the last. After a failed run the files kpex itself writes from a tool '
              'that failed or was not called are as before or absent, and no run touches result files of engines it '
              'was not asked for.',
 'quantifier': {'over': ['histories', 'crash points', 'configurations'],
                'text': 'all sequences of runs of all combinations of engines in one output directory, with every '
                        'tool failing in every way'},
 'why_tests_cant': 'No test runs an external tool; what is found in the output directory depends on earlier runs, '
                   'and tools such as MAGIC report success without having done anything.',
 'anchors': {'files': ['klayout_pex/kpex_cli.py',
                       'klayout_pex/env.py',
                       'klayout_pex/magic/magic_runner.py',
                       'klayout_pex/fastercap/fastercap_runner.py',
                       'klayout_pex/fastcap/fastcap_runner.py',
                       'klayout_pex/klayout/lvs_runner.py'],
             'state': [{'name': 'run directory',
                        'meaning': 'result files by engine',
                        'where': 'klayout_pex/kpex_cli.py'}],
             'mechanism': [{'name': 'order of engines', 'where': 'klayout_pex/kpex_cli.py: main'},
                           {'name': 'exit status of tools',
                            'where': 'klayout_pex/fastercap/fastercap_runner.py: run_fastercap, '
                                     'klayout_pex/magic/magic_runner.py: run_magic'},
                           {'name': 'stale MAGIC results are removed',
                            'where': 'klayout_pex/kpex_cli.py: run_magic_extraction'},
                           {'name': 'last matrix of the log',
                            'where': 'klayout_pex/fastercap/fastercap_runner.py: '
                                     'fastercap_parse_capacitance_matrix'}],
             'observe_at': ['KpexCLI.main() with stand-ins for the tools, result files after each run'],
             'hook_needed': None},
 'technique': 'TLC model checking of the run procedure against the contract, and TLA+ specification model-checked '
              'with TLC; traces of the real code validated by TLC against it (histories of runs with stand-ins for '
              'KLayout, FasterCap, FastCap2 and MAGIC)',
 'level_note': 'Model: all pairs (thorough: triples) of runs. On the code: seeded histories of 6 runs; each result '
               'file is tagged by the run whose tool output it holds. The stand-in for FastCap2 names its conductors '
               'so that they are accepted (see C12).'}
