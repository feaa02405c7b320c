P = {'id': 'C24',
 'title': 'Reducing a resistor network keeps what the remaining nodes see',
 'statement': 'In a ResistorNetwork one point is one node with an id of its own (never given again), resistors '
              'between the same two nodes add up as conductances, both directions and the star lists of nodes agree, '
              'and check() reports 0 errors, whatever sequence of adding, removing, eliminating and connecting nodes '
              'led there. Eliminating nodes leaves for all potentials the currents at the other nodes as they were, '
              'whatever the order, and eliminate_all ends with the precious nodes only; connecting two nodes is the '
              'same as giving them one potential. Texts, nodes on an edge and nodes within a polygon show that '
              'state, Conductance adds in parallel and in series without changing other operands than the one named, '
              'and an obtuse triangle is split into two that cover it.',
 'quantifier': {'over': ['inputs', 'histories'], 'text': 'all networks and all sequences of operations on them'},
 'why_tests_cant': 'No test touches the class; it is not used by the extractor at this commit, yet public.',
 'anchors': {'files': ['klayout_pex/rcx25/r/resistor_network.py', 'klayout_pex/rcx25/r/conductance.py'],
             'state': [{'name': 'network',
                        'meaning': 'nodes, locations, s, node_to_s',
                        'where': 'klayout_pex/rcx25/r/resistor_network.py'}],
             'mechanism': [{'name': 'network', 'where': 'klayout_pex/rcx25/r/resistor_network.py: ResistorNetwork'},
                           {'name': 'conductance', 'where': 'klayout_pex/rcx25/r/conductance.py: Conductance'}],
             'observe_at': ['public methods and tables of ResistorNetwork, Conductance'],
             'hook_needed': None},
 'technique': 'TLC model checking with exact rationals (Kirchhoff currents for unit potentials, confluence), and '
              'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model: all networks of 4 (thorough 5) nodes with conductances 0 to 2 (3). On the code: 400 (thorough '
               '6000) seeded programs over 2 to 9 nodes, 60 (1000) calculations, 300 (4000) triangles. Conductances '
               'below 1e-10 count as none in the code and are left out; nodes that never had a resistor stay.'}
