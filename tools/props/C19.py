P = {'id': 'C19',
 'title': 'Shapes, pins and device terminals carry the net they belong to',
 'statement': 'From an LVS database the extraction context lists each LVS layer under the GDS pair of the technology '
              '(several may share one, unknown ones appear as unnamed layers, and with --blackbox the device-only '
              'capacitor and resistor layers are dropped). Two shapes carry the same net name exactly if they are '
              'electrically connected in the flattened layout (metals and vias across the hierarchy, equal labels of '
              'the top cell, global nets), and a labelled net of the top cell has the name of its label. Shapes of a '
              'net, pins (label on a pin shape: label, net, position) and terminals of devices carry that same net, '
              'whatever the hierarchy, and the bounding box encloses all shapes. Converting shapes to protobuf and '
              'back keeps their nets and areas.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all layouts with cells placed at several places and turned, all connections between levels '
                        'of the hierarchy, both technologies'},
 'why_tests_cant': 'The tests read two stored LVS databases without placed cells; a shape with the net of another '
                   'cell or placement changes the results of hierarchical layouts only.',
 'anchors': {'files': ['klayout_pex/klayout/lvsdb_extractor.py', 'klayout_pex/klayout/shapes_pb2_converter.py'],
             'state': [{'name': 'context',
                        'meaning': 'extracted_layers, unnamed_layers, annotated layout, pins and devices by name',
                        'where': 'klayout_pex/klayout/lvsdb_extractor.py'}],
             'mechanism': [{'name': 'layers, nets, pins and devices of the LVSDB',
                            'where': 'klayout_pex/klayout/lvsdb_extractor.py: '
                                     'KLayoutExtractionContext.prepare_extraction'},
                           {'name': 'conversion of shapes',
                            'where': 'klayout_pex/klayout/shapes_pb2_converter.py: ShapesConverter'}],
             'observe_at': ['KLayoutExtractionContext.prepare_extraction() on LVS databases made of generated '
                            'layouts, ShapesConverter'],
             'hook_needed': None},
 'technique': 'TLC model checking that clusters found cell by cell and joined upwards are the nets of the flattened '
              'layout, and TLA+ specification model-checked with TLC; traces of the real code validated by TLC '
              'against it',
 'level_note': 'Model: 5184 (thorough 55296) layouts of two cells. On the code: 320 (thorough 6000) seeded layouts '
               'of up to 4 cells in sky130A and ihp_sg13g2, 150 (3000) conversions. Nets of placed cells without any '
               'connection upwards keep the names KLayout gives (known finding for equal names), corner contacts are '
               'left out.'}
