P = {'id': 'C22',
 'title': 'The drawing of a netlist is the circuit asked for, nothing lost or joined',
 'statement': 'The JSON that netlist svg writes for netlistsvg is the circuit: each port once; each resistor and '
              'capacitor once, under C or R and its name, with its two nets and its value (fF or Ohm, three '
              'decimals); each instance of a subcircuit once, with its model and for each pin its number and net; '
              'one ground symbol for each of the nets VSUBS and GND, none for others. Each net is one bit, different '
              'nets are different bits. The command draws the cell asked for with --cell (any upper or lower case), '
              'else the only top cell, calls netlistsvg once with that JSON, the analog skin and the output path '
              '(--output, else beside the JSON under the name of the netlist), keeps its output in a log, opens the '
              'SVG only with --preview, and ends with an error if the netlist, the tool or the cell is not there, '
              'the cell is not determined or the tool fails.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all netlists of resistors, capacitors and subcircuits, all command lines'},
 'why_tests_cant': 'No test covers the drawing; a net torn apart or a lost instance shows only in the picture.',
 'anchors': {'files': ['klayout_pex/netlistsvg/netlist_json.py',
                       'klayout_pex/netlistsvg/netlistsvg_runner.py',
                       'klayout_pex/netlist/netlist_cli.py'],
             'state': [{'name': 'drawing',
                        'meaning': 'ports and cells of the JSON module',
                        'where': 'klayout_pex/netlistsvg/netlist_json.py'}],
             'mechanism': [{'name': 'circuit to JSON',
                            'where': 'klayout_pex/netlistsvg/netlist_json.py: NetlistJSONWriter'},
                           {'name': 'choice of the cell',
                            'where': 'klayout_pex/netlist/netlist_cli.py: NetlistCLI.run_netlistsvg'},
                           {'name': 'call', 'where': 'klayout_pex/netlistsvg/netlistsvg_runner.py: run_netlistsvg'}],
             'observe_at': ['NetlistJSONWriter.netlist_json_dict() and write_json(), NetlistCLI.main() with a '
                            'stand-in for netlistsvg'],
             'hook_needed': None},
 'technique': 'TLC model checking of a writer visiting the parts in any order, and of a run with its errors, and '
              'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model: all circuits of 2 nets, up to 2 ports, devices, instances; 1254 runs. On the code: 600 '
               '(thorough 8000) seeded circuits read from SPICE or made by hand, 160 (2000) runs. Other devices '
               '(transistors) are refused by the code.'}
