PROPERTY = 'C25'
NEEDS = 'LVS prints lines that are empty or of blanks only'
BREAKS = 'they are missing from the log file of LVS'
LIB = False
EDITS = [('klayout_pex/klayout/lvs_runner.py', '                f.writelines([line])\n', '                if not line.isspace():\n                    f.writelines([line])\n')]
DEMO = '''
import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.klayout.lvs_runner import LVSRunner
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    with open(d + '/klayout', 'w') as f:
        f.write('#!/bin/bash\\nprintf "one\\n\\n  \\ntwo\\n"\\n')
    os.chmod(d + '/klayout', 0o755)
    LVSRunner.run_klayout_lvs(exe_path=d + '/klayout', lvs_script='x.lvs', gds_path='x.gds', schematic_path='x.spice', log_path=d + '/lvs.log',
                              lvsdb_path=d + '/x.lvsdb', verbose=False)
    t = open(d + '/lvs.log').read()
    print(repr(t))
    sys.exit(0 if t == 'one\\n\\n  \\ntwo\\n' else 1)
finally:
    shutil.rmtree(d)
'''
