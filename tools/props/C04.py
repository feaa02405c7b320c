P = {'id': 'C04',
 'title': 'Resistor networks: one per net, between its pins, terminals and vias',
 'statement': 'In modes R and RC, for nets drawn as straight wires joined by vias, the extraction returns for every '
              "net, named or not, one network carrying the net's name, whose nodes are the pin labels on the net, "
              'the device terminals on it and two ends for each via or contact, on the two layers that it joins. Its '
              'resistors are one for each pair of neighbouring nodes of a wire, sheet resistance of the layer x '
              'centre distance / wire width (none within diffusion), and one for each via, resistance per cut x '
              '(nominal cut width squared) / drawn area, and no others. Pin and terminal nodes carry the name of the '
              'net, via ends carry names that no other node or net has.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all layouts of straight wires, vias, contacts, pins and transistors on the layers of '
                        'sky130A and ihp_sg13g2, all resistance tables'},
 'why_tests_cant': 'There is one resistance unit test of the device table; the extraction needs pin layers, labels, '
                   'LVS layer names and technology tables to agree for every layer and via of both processes.',
 'anchors': {'files': ['klayout_pex/rcx25/r/r_extractor.py',
                       'klayout_pex/klayout/rex_core.py',
                       'klayout_pex/klayout/lvsdb_extractor.py',
                       'klayout_pex/klayout/shapes_pb2_converter.py',
                       'klayout_pex/tech_info.py',
                       'cxx/gen_tech_pb/pdk/sky130A.cpp'],
             'state': [{'name': 'networks',
                        'meaning': 'nodes and elements by net',
                        'where': 'r_extraction_result of CellExtractionResults'}],
             'mechanism': [{'name': 'technology for the resistor extractor',
                            'where': 'klayout_pex/rcx25/r/r_extractor.py: prepare_r_extractor_tech_pb'},
                           {'name': 'nets, pins and terminals of the request',
                            'where': 'klayout_pex/rcx25/r/r_extractor.py: prepare_request'},
                           {'name': 'nodes and resistors of the result',
                            'where': 'klayout_pex/rcx25/r/r_extractor.py: extract'},
                           {'name': 'pins and device terminals',
                            'where': 'klayout_pex/klayout/lvsdb_extractor.py: pins_pb2_by_layer, devices_by_name'}],
             'observe_at': ['RCX25Extractor.extract() results'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it (wire '
              'meshes with vias, pins and transistors through the real extractor)',
 'level_note': 'The specification builds networks port by port and is model checked against its declarative form; '
               'layouts are seeded random meshes on both processes, values compared to 1 mOhm. Bends and junctions '
               'of wires are decided by KLayout and not compared.'}
