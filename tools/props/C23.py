P = {'id': 'C23',
 'title': 'A repaired marker database can be loaded and holds every item as before',
 'statement': 'The repair of a marker database whose items refer to categories that are missing writes '
              'FILE.repair.xml, which KLayout loads: every item is there in order with its cell, values and comment '
              'under the category path it had, the categories are those present before (with their descriptions) and '
              'those on the way to an item, each once, everything else is the same, and FILE itself (plain or '
              'compressed) is unchanged. Category paths are read as KLayout writes them, whatever characters the '
              'names hold (dots, quotes, backslashes, line breaks, other scripts, empty names).',
 'quantifier': {'over': ['inputs'], 'text': 'all databases with any categories missing, all category names'},
 'why_tests_cant': 'No test covers the repair, which runs only after KLayout wrote a database it cannot read.',
 'anchors': {'files': ['klayout_pex/klayout/repair_rdb.py'],
             'state': [{'name': 'category tree',
                        'meaning': 'categories element of the XML file',
                        'where': 'klayout_pex/klayout/repair_rdb.py'}],
             'mechanism': [{'name': 'paths', 'where': 'klayout_pex/klayout/repair_rdb.py: parse_category_path'},
                           {'name': 'missing categories',
                            'where': 'klayout_pex/klayout/repair_rdb.py: repair_rdb_xml'}],
             'observe_at': ['repair_rdb(), parse_category_path(), loaded back by KLayout'],
             'hook_needed': None},
 'technique': 'TLC model checking of reading back each written path, and of inserting missing names, and TLA+ '
              'specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model: all paths of 2 names of 2 characters, or 1 of 3 (thorough 4), from 6 (10) representative '
               'characters; all category trees over 2 names, depth 2, 2 (3) items. On the code: 400 (thorough 6000) '
               'seeded databases. Control characters other than tab and line feed are left out (KLayout cannot store '
               'them).'}
