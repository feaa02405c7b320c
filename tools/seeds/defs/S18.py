PROPERTY = 'C10'
NEEDS = 'a layout with several top cells, and --cell naming one of them'
BREAKS = 'the other top cells are no longer left out of the layout that LVS and MAGIC get'
LIB = False
EDITS = [('klayout_pex/kpex_cli.py', 'is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name',
          'is_only_top_cell = args.cell_name in [c.name for c in top_cells]')]
DEMO = '''
import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.kpex_cli import KpexCLI
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    ly = kdb.Layout()
    for n in ('ONE', 'TWO'):
        ly.create_cell(n).shapes(ly.layer(67, 20)).insert(kdb.Box(0, 0, 500, 500))
    ly.write(d + '/x.gds')
    with open(d + '/klayout', 'w') as f:
        f.write('#!/bin/bash\\nfor a in "$@"; do case "$a" in input=*) cp "${a#input=}" "%s/seen.gds";; esac; done\\n' % d)
    os.chmod(d + '/klayout', 0o755)
    os.environ['KPEX_KLAYOUT_EXE'] = d + '/klayout'
    try:
        KpexCLI().main(['kpex', '--pdk', 'sky130A', '--gds', d + '/x.gds', '--cell', 'ONE', '--out_dir', d + '/out', '--2.5D',
                        '--log_level', 'critical'])
    except (Exception, SystemExit) as e:
        print('ended:', e)       # (the stand-in makes no result)
    seen = kdb.Layout()
    src = d + '/seen.gds'
    seen.read(src)
    tops = sorted(c.name for c in seen.top_cells())
    print('LVS got', tops)
    sys.exit(0 if tops == ['ONE'] else 1)
finally:
    shutil.rmtree(d)
'''
