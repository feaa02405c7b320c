P = {'id': 'C25',
 'title': 'Runs at the same time go on as if alone, and log what their own tools print',
 'statement': 'Runs for different run directories that go on at the same time, also in one output directory, with '
              'one LVSDB cache, and while others fail or are killed, each end as they would alone: with the same '
              'exit status, the same tools called (LVS unless an earlier result for the same layout and cell is in '
              'the cache by then) and the same result files. Each run whose run directory is known when its '
              'arguments have been examined has a kpex.log and a kpex_plain.log there, those of earlier runs being '
              'kept as *.bak.log. They hold every line that its tools print, once, in order and (if it is text) '
              'verbatim, if --log_level is subprocess or lower (all, debug), else none, and nothing that other runs '
              'print, in the same process or not; the log file of each tool holds all its lines, and no name, path '
              'or line of output ends a run because it is logged.',
 'quantifier': {'over': ['schedules', 'histories', 'crash points'],
                'text': 'all interleavings of runs, all output of tools'},
 'why_tests_cant': 'Tests run one command at a time and do not look at logs; two runs meet only if they examine '
                   'their arguments at the same moment.',
 'anchors': {'files': ['klayout_pex/kpex_cli.py',
                       'klayout_pex/log/logger.py',
                       'klayout_pex/klayout/lvs_runner.py',
                       'klayout_pex/fastercap/fastercap_runner.py',
                       'klayout_pex/fastcap/fastcap_runner.py',
                       'klayout_pex/magic/magic_runner.py'],
             'state': [{'name': 'log files',
                        'meaning': 'preliminary files, log files and backups, handlers of the logger',
                        'where': 'klayout_pex/kpex_cli.py'}],
             'mechanism': [{'name': 'log files of a run', 'where': 'klayout_pex/kpex_cli.py: KpexCLI.setup_logging'},
                           {'name': 'messages', 'where': 'klayout_pex/log/logger.py'},
                           {'name': 'output of tools',
                            'where': 'klayout_pex/fastercap/fastercap_runner.py: run_fastercap'}],
             'observe_at': ['KpexCLI.main() in several processes, driven from barrier to barrier: reading of the '
                            'layout, calls of MAGIC, LVS, FasterCap, FastCap2, end; files in the run directories'],
             'hook_needed': None},
 'technique': 'TLC model checking of the log files as names and inodes under all interleavings, and of the same as '
              'refinement of what each run has to do, and TLA+ specification model-checked with TLC; traces of the '
              'real code validated by TLC against it',
 'level_note': 'Model: 2 (thorough 3) runs, 2 directories, accepted, refused with and without a directory, in one or '
               'several processes. On the code: 120 (1500) seeded schedules of 2 to 4 runs with 3 to 6 steps each. '
               'Interleavings within these steps (examining arguments, moving log files) are covered by the model '
               'only.'}
