P = {'id': 'C06',
 'title': 'The summary adds up all parts of a net pair, whatever their order',
 'statement': 'The summary of an extraction holds each unordered pair of nets that has any extracted element exactly '
              'once: its capacitance is the sum of all overlap, sidewall and fringe entries of the pair over all '
              'layers and cells, and its resistance the parallel combination of all resistors between the two nets. '
              'Merging summaries, in any order and grouping, gives what one summary of all elements gives.',
 'quantifier': {'over': ['inputs'], 'text': 'all result tables of all cells, and all orders of merging them'},
 'why_tests_cant': 'The unit tests merge two hand-made tables; the guarantee concerns all combinations of tables, '
                   'swapped net names and groupings.',
 'anchors': {'files': ['klayout_pex/rcx25/extraction_results.py'],
             'state': [{'name': 'ExtractionSummary',
                        'meaning': 'capacitances and resistances by net pair',
                        'where': 'klayout_pex/rcx25/extraction_results.py'}],
             'mechanism': [{'name': 'normalised net pairs',
                            'where': 'klayout_pex/rcx25/extraction_results.py: NetCoupleKey.normed'},
                           {'name': 'adding and merging',
                            'where': 'klayout_pex/rcx25/extraction_results.py: summarize, ExtractionSummary.merged'}],
             'observe_at': ['ExtractionResults.summarize(), ExtractionSummary.merged()'],
             'hook_needed': None},
 'technique': 'TLA+ specification model-checked with TLC; traces of the real code validated by TLC against it',
 'level_note': 'Model checked: the incremental summary equals the declarative one on all small tables and merge '
               'trees. On the code: thousands of seeded tables with shuffled, split and merged variants.'}
