P = {'id': 'C17',
 'title': 'External tools get the settings of the options, for all file and cell names',
 'statement': 'MAGIC runs in batch with the magicrc (--magicrc, else that of PDKPATH and PDK) a Tcl script that '
              'reads the layout, flattens the chosen cell under its name, extracts it into the run directory with '
              '--magic_halo (200 units per um) and writes the netlist file of the run as subcircuit for ngspice: '
              'capacitances with cthresh in modes CC and RC only, resistances (extresist with tolerance, rthresh) in '
              'R and RC only, with the short and merge modes. FasterCap gets -a, -d, -m and -f of --tolerance, '
              '--d_coeff, --mesh and --ooc, -ap unless switched off, -g and -pj if asked for, --threads as '
              'OMP_NUM_THREADS and the list file of the run; FastCap2 runs in the directory of the list file, with '
              'permittivity factor 1 and its own order, tolerance and partitioning. KLayout gets the LVS script of '
              'the PDK, absolute paths of layout, schematic and report, --lvs-verbose, deep mode, net names and '
              'top-level pins, with nothing scaled, combined, purged or simplified; options left out have the '
              'documented defaults, and blanks, $, brackets, quotes and the like in file and cell names make no '
              'difference.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all combinations of options, PDKs, file and cell names'},
 'why_tests_cant': 'No test calls an external tool; a swapped or dropped option shows only in the results of the '
                   'tool.',
 'anchors': {'files': ['klayout_pex/magic/magic_runner.py',
                       'klayout_pex/fastercap/fastercap_runner.py',
                       'klayout_pex/fastcap/fastcap_runner.py',
                       'klayout_pex/klayout/lvs_runner.py',
                       'klayout_pex/kpex_cli.py'],
             'state': [{'name': 'command lines',
                        'meaning': 'arguments, working directory and environment of the tools',
                        'where': 'klayout_pex/kpex_cli.py'}],
             'mechanism': [{'name': 'MAGIC script',
                            'where': 'klayout_pex/magic/magic_runner.py: prepare_magic_script, run_magic'},
                           {'name': 'FasterCap and FastCap2',
                            'where': 'klayout_pex/fastercap/fastercap_runner.py: run_fastercap, '
                                     'klayout_pex/fastcap/fastcap_runner.py: run_fastcap'},
                           {'name': 'LVS', 'where': 'klayout_pex/klayout/lvs_runner.py: LVSRunner.run_klayout_lvs'}],
             'observe_at': ['arguments and files that stand-ins for the tools are given; the MAGIC script is '
                            'interpreted by tclsh'],
             'hook_needed': None},
 'technique': 'TLC model checking of a MAGIC session executing the script (each command necessary, each option '
              'decisive), and TLA+ specification model-checked with TLC; traces of the real code validated by TLC '
              'against it',
 'level_note': 'Model: 432 (thorough 648) choices of options, with any one command left out. On the code: 640 '
               '(thorough 7200) seeded command lines of 15 cell names, 6 file names, 7 directories. The tools '
               'themselves are stand-ins.'}
