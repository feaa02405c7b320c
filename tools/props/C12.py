P = {'id': 'C12',
 'title': 'The expanded netlist holds exactly the capacitances of the FasterCap matrix',
 'statement': 'For a symmetric matrix with conductors g<n>_<net> the expanded netlist has a capacitor of -m[i,j] '
              'between the nets of each pair of conductors and one of the sum of the row from each conductor but the '
              'first (the substrate) to the first, wherever positive, and no other, while FC_GND and VSUBS are tied '
              'to GND by resistors of 0 ohm (all three nets are created if missing). Devices of the top circuit are '
              'kept or removed as the blackbox option says, pins, other nets and circuits are kept, the netlist '
              'given is not modified, and a conductor that is no net (unnamed nets are called $n) raises an error. '
              'The CSV lists exactly these capacitors with the names of their nets and fF rounded to 2 decimals, and '
              'a run of kpex gives these results for the averaged matrix of the log.',
 'quantifier': {'over': ['inputs'], 'text': 'all matrices (signs, sizes, scales), names of nets, devices, circuits'},
 'why_tests_cant': 'The only test of the expander runs it on one matrix and looks at no value of the result.',
 'anchors': {'files': ['klayout_pex/klayout/netlist_expander.py',
                       'klayout_pex/klayout/netlist_csv.py',
                       'klayout_pex/kpex_cli.py'],
             'state': [{'name': 'expanded netlist',
                        'meaning': 'devices, nets',
                        'where': 'klayout_pex/klayout/netlist_expander.py'}],
             'mechanism': [{'name': 'capacitors, resistors and removal of devices',
                            'where': 'klayout_pex/klayout/netlist_expander.py: NetlistExpander.expand'},
                           {'name': 'CSV',
                            'where': 'klayout_pex/klayout/netlist_csv.py: NetlistCSVWriter.write_csv'}],
             'observe_at': ['NetlistExpander.expand(), NetlistCSVWriter.write_csv(), result files of KpexCLI.main() '
                            'with a stand-in for FasterCap'],
             'hook_needed': None},
 'technique': 'TLC model checking that the capacitors give back the structure whose Maxwell matrix is read, and TLA+ '
              'specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model: all structures of 3 (thorough 4) conductors with capacitances 0..3 (0..2). On the code: 2000 '
               '(thorough 16000) seeded matrices of up to 8 conductors, 46 (383) runs of kpex. FastCap2 is the known '
               'finding.'}
