P = {'id': 'C07',
 'title': '2.5D netlist and CSV hold exactly the summary, in SI units, around the input',
 'statement': 'The expanded netlist of the 2.5D engine holds for each entry of the summary one capacitor in farad or '
              'resistor in ohm between the nets of those names, with a name of its own, and no other parasitic '
              'device. Pins, nets and devices of the extracted top circuit are kept, except that its capacitor '
              'devices are left out unless devices are blackboxed, nets are added only for names of the summary, '
              'VSUBS and FC_GND, and the netlist passed in is not modified. The CSV file lists the same entries, C1, '
              'C2, ... and R1, R2, ..., in fF and ohm rounded to 3 decimals.',
 'quantifier': {'over': ['inputs', 'configurations'], 'text': 'all extracted netlists, summaries and modes'},
 'why_tests_cant': 'The expander test compares one hand-made netlist; there is no test of units, net name '
                   'collisions, white/blackbox filtering or CSV content.',
 'anchors': {'files': ['klayout_pex/rcx25/netlist_expander.py', 'klayout_pex/kpex_cli.py'],
             'state': [{'name': 'expanded netlist',
                        'meaning': 'devices of the top circuit',
                        'where': 'klayout_pex/rcx25/netlist_expander.py'}],
             'mechanism': [{'name': 'summary entries become devices',
                            'where': 'klayout_pex/rcx25/netlist_expander.py: expand'},
                           {'name': 'CSV and SPICE files', 'where': 'klayout_pex/kpex_cli.py: run_kpex_2_5d_engine'}],
             'observe_at': ['RCX25NetlistExpander.expand(), *_k25d_pex_netlist.csv and .spice'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it '
              '(netlists and files written by the real code)',
 'level_note': 'On the code: seeded command line runs on layouts of two processes and seeded netlists with ten '
               'device classes; every device, pin and net of input and output compared. The CSV value must agree '
               'with the summary to 0.001.'}
