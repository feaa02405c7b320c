P = {'id': 'C16',
 'title': 'FasterCap model of a layout: every layer at the height of the process stack',
 'statement': 'In the model a run with --fastercap writes, each metal shape of a net is a conductor of that net from '
              'the z of its layer up by its thickness, each via or contact stands on the metal below with the '
              'thickness of the contact, diffusions reach from 0 to 0.1 um and their contacts start at 0; VSUBS lies '
              'at the depth of the substrate within 8 um around the layout, except within 1 um of diffusions, and '
              'field oxide from 0 to the gate. Around the shapes of a metal (where it has any) come the sidewall and '
              'conformal dielectrics that refer to it, then those that refer to these, each wider by its width and '
              'higher by its height (a sidewall without height: that of the metal; the first conformal one: metal '
              'thickness plus its thickness), a conformal one also lying on the previous where there is no metal; '
              'the simple dielectric above the metal fills up to the next metal. Dielectrics not selected by --diel '
              '(all with -name, none with +name, in any order), and those referring to them, are left out; --k_void '
              'surrounds the model.',
 'quantifier': {'over': ['inputs', 'configurations'],
                'text': 'all layouts of boxes on the layers of sky130A and ihp_sg13g2, all stacks of dielectrics, '
                        'all selections of dielectrics'},
 'why_tests_cant': 'No test builds a model of a layout; a layer at a wrong height or a missing dielectric only '
                   'changes some capacitances by some percent.',
 'anchors': {'files': ['klayout_pex/fastercap/fastercap_input_builder.py',
                       'klayout_pex/tech_info.py',
                       'klayout_pex/util/multiple_choice.py',
                       'cxx/gen_tech_pb/pdk/sky130A.cpp',
                       'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp',
                       'klayout_pex/klayout/lvsdb_extractor.py'],
             'state': [{'name': 'model',
                        'meaning': 'conductors and dielectrics with base and height',
                        'where': 'klayout_pex/fastercap/fastercap_model_generator.py'}],
             'mechanism': [{'name': 'conductors, substrate and dielectrics',
                            'where': 'klayout_pex/fastercap/fastercap_input_builder.py: FasterCapInputBuilder.build'},
                           {'name': 'chains of dielectrics',
                            'where': 'klayout_pex/tech_info.py: sidewall_dielectric_layer, '
                                     'simple_dielectric_above_metal'},
                           {'name': 'selection of dielectrics',
                            'where': 'klayout_pex/util/multiple_choice.py: MultipleChoicePattern'}],
             'observe_at': ['list and geometry files of FasterCapInputBuilder.build() and of KpexCLI.main() with a '
                            'stand-in for FasterCap'],
             'hook_needed': None},
 'technique': 'TLC model checking of the stack against a step-by-step process of deposition, and TLA+ specification '
              'model-checked with TLC; traces of the real code validated by TLC against it (vertical probes into the '
              'written files)',
 'level_note': 'Model: all chains of 2 (thorough 3) dielectrics. On the code: 400 (thorough 12000) seeded layouts '
               'with 30 probes each, on the shipped stacks and on ones with other heights and dielectrics. The stack '
               'itself is read from the generated technology; shapes are boxes; sizes that binary fractions round '
               'down are left out, as are nets that touch without being connected.'}
