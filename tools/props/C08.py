P = {'id': 'C08',
 'title': 'A run works on an LVS result of the layout as it is, never on an older one',
 'statement': 'A run with --gds that succeeds has worked on an LVS result for its cell made from the GDS file as it '
              'was at some time of the run, or taken from the LVSDB cache while the file has not been modified since '
              'that LVS run began; files, cells, PDKs and cache directories are kept apart. LVS is always called '
              'with --cache-lvs false and whenever no such cache entry exists, and is not called again while one '
              'exists. A failed, incomplete or missing LVS result, or an interrupted write to the cache, makes that '
              'run fail and never makes a later run fail or use a wrong result.',
 'quantifier': {'over': ['histories', 'crash points', 'configurations'],
                'text': 'all histories of edits and runs over several files, cells, output and cache directories, '
                        'with LVS failures, edits while LVS runs, and write errors at any time'},
 'why_tests_cant': 'No test runs LVS twice; freshness depends on time stamps, on what earlier runs left in output '
                   'and cache directories, and on failures of the external tool at particular points.',
 'anchors': {'files': ['klayout_pex/kpex_cli.py', 'klayout_pex/klayout/lvs_runner.py'],
             'state': [{'name': 'LVSDB cache',
                        'meaning': '<cache dir>/<pdk>/<gds path>/<cell>.lvsdb.gz',
                        'where': 'klayout_pex/kpex_cli.py: create_lvsdb'},
                       {'name': 'LVSDB of the run',
                        'meaning': '<run dir>/<cell>.lvsdb.gz',
                        'where': 'klayout_pex/kpex_cli.py: create_lvsdb'}],
             'mechanism': [{'name': 'cache lookup, stale results removed, atomic cache entry',
                            'where': 'klayout_pex/kpex_cli.py: create_lvsdb'},
                           {'name': 'time of reading the layout', 'where': 'klayout_pex/kpex_cli.py: validate_args'}],
             'observe_at': ['results of KpexCLI.main() and calls of the LVS executable'],
             'hook_needed': None},
 'technique': 'TLC model checking of the cache mechanism (interleavings, crashes, clock resolution) and of all short '
              'histories, and replay of TLC-simulated histories into the real command line with a stand-in for '
              'KLayout, validated by TLC',
 'level_note': 'Mechanism: two runs sharing a cache, all interleavings of 3-4 runs. On the code: simulated histories '
               'of 6 events (9 thorough) over up to 2 files, cells, output and cache directories. Edits set a new '
               'modification time (a file replaced by one with an older time stamp is not covered). Trusts '
               'os.replace.'}
