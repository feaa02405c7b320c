P = {'id': 'C05',
 'title': 'Modes and options of the 2.5D engine mean the same in every combination',
 'statement': 'Capacitances are extracted in modes CC and RC only, resistances in R and RC only, the default mode is '
              'CC, and RC gives the same capacitances as CC and the same resistances as R under the same options. '
              '--halo replaces the side halo of the technology and nothing else, --scale defaults to true, and '
              'neither changes resistances. A run gives the same results in whatever order runs follow one another '
              'in a process, and the command line gives those of the engine called with the same settings.',
 'quantifier': {'over': ['configurations', 'histories'],
                'text': 'all combinations and sequences of --mode, --halo, --scale and --blackbox on all layouts'},
 'why_tests_cant': 'Options are plumbed through argparse, the technology object and three extractors; tests call '
                   'single functions with one setting.',
 'anchors': {'files': ['klayout_pex/kpex_cli.py', 'klayout_pex/rcx25/extractor.py', 'klayout_pex/rcx25/pex_mode.py'],
             'state': [{'name': 'summary of a run',
                        'meaning': 'capacitances and resistances by net pair',
                        'where': 'KpexCLI.rcx25_extraction_results'}],
             'mechanism': [{'name': 'mode gates',
                            'where': 'klayout_pex/rcx25/pex_mode.py: need_capacitance, need_resistance'},
                           {'name': 'halo override and dispatch',
                            'where': 'klayout_pex/kpex_cli.py: main, run_kpex_2_5d_engine'}],
             'observe_at': ['RCX25Extractor.extract() and KpexCLI.main() results'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it (one '
              'trace is a sequence of runs on one layout)',
 'level_note': 'The specification treats what is extracted as an unknown function of (layout, halo, scale) and '
               'checks all option combinations; on the code, sequences of 13 runs per layout (command line and '
               'engine) on seeded layouts of two processes.'}
