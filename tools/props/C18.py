P = {'id': 'C18',
 'title': 'The shipped technologies agree with themselves, and lookups find their entries',
 'statement': 'In the technology files of sky130A and ihp_sg13g2, metals are stacked without overlap, each contact '
              'or via reaches from its layer just to the metal above it and has one resistance, each metal is one '
              'routing layer with its own GDS pairs for pins and labels, a sheet resistance that does not rise from '
              'metal to metal (aluminium from the first metal up), a substrate, sidewall, overlap (per pair) and '
              'side overlap capacitance (per ordered pair), all positive. Overlap and substrate capacitances per '
              'area are those of parallel plates with the stack between them (within 0.5% for ihp_sg13g2, -17.5 to '
              '+4.5% for sky130A), they and the side overlap ones fall with the distance, and those to wells equal '
              'those to the substrate. For any technology, the lookups of TechInfo give the entry with the name or '
              'GDS pair asked for, if any, overlap and side overlap including the substrate as VSUBS, dielectrics as '
              'filtered, and contact resistances times the area of a contact.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all layers, pairs of layers and vias of both technologies; all technologies for the '
                        'lookups'},
 'why_tests_cant': 'No test reads the numbers of a technology; a typing error in one of 250 numbers shifts the '
                   'results of some layouts only.',
 'anchors': {'files': ['cxx/gen_tech_pb/pdk/sky130A.cpp',
                       'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp',
                       'cxx/gen_tech_pb/protobuf.cpp',
                       'klayout_pex/tech_info.py'],
             'state': [{'name': 'technology',
                        'meaning': 'messages of kpex.tech.Technology',
                        'where': 'klayout_pex_protobuf/sky130A_tech.pb.json'}],
             'mechanism': [{'name': 'tables',
                            'where': 'cxx/gen_tech_pb/pdk/sky130A.cpp and cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'},
                           {'name': 'lookups', 'where': 'klayout_pex/tech_info.py: TechInfo'}],
             'observe_at': ['the generated technology files and the properties of TechInfo'],
             'hook_needed': None},
 'technique': 'TLC model checking that each loss, doubling, exchange or gross change of an entry contradicts the '
              'others, and TLA+ specification model-checked with TLC; traces of the real code validated by TLC '
              'against it',
 'level_note': 'Model: stacks of 4 (thorough 5) metals, any one row lost, doubled, changed, any two exchanged '
               '(exceptions are listed in TechModel.tla). On the code: both shipped technologies as a whole, 200 '
               '(thorough 4000) altered ones for the lookups. What the tables do not determine twice (sidewall '
               'offsets, single side overlap values within the order of their neighbours) is not checked.'}
