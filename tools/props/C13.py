P = {'id': 'C13',
 'title': 'Netlist reduction preserves electrical behaviour and drops only small capacitors',
 'statement': 'The reduced netlist is electrically equivalent to the one given, as seen from its pins and from all '
              'other devices: capacitances and resistances between them are unchanged, resistors of 0 ohm still join '
              'their nets, transistors keep their total width per terminals and length, all other devices and the '
              'pins stay. No two capacitors are in parallel, and of the merged capacitors exactly those below the '
              'threshold (0.05 fF unless given) are removed. The netlist given is not modified.',
 'quantifier': {'over': ['inputs'],
                'text': 'all netlists of capacitors, resistors, transistors and other devices between any nets'},
 'why_tests_cant': 'The only test of the reducer runs it on one netlist without looking at the result.',
 'anchors': {'files': ['klayout_pex/klayout/netlist_reducer.py'],
             'state': [{'name': 'reduced netlist',
                        'meaning': 'devices, nets, pins',
                        'where': 'klayout_pex/klayout/netlist_reducer.py'}],
             'mechanism': [{'name': 'merging of devices and the threshold',
                            'where': 'klayout_pex/klayout/netlist_reducer.py: NetlistReducer.reduce'}],
             'observe_at': ['NetlistReducer.reduce()'],
             'hook_needed': None},
 'technique': 'TLC model checking that merging and star-mesh elimination agree, and TLA+ specification model-checked '
              'with TLC; traces of the real code validated by TLC against it (port admittances in exact rational '
              'arithmetic)',
 'level_note': 'Model: all networks of up to 3 (thorough 4) elements over 4 nets. On the code: 2500 (thorough 25000) '
               'seeded netlists of up to 7 nets. Netlists for which KLayout mixes up its device classes are the '
               'known finding.'}
