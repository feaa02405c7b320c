PROPERTY = 'C17'
NEEDS = '--ooc 0 (an out-of-core condition of zero)'
BREAKS = 'FasterCap does not get the option -f 0'
LIB = False
EDITS = [('klayout_pex/fastercap/fastercap_runner.py', 'if ooc_condition is not None:', 'if ooc_condition:')]
DEMO = '''
import inspect, os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastercap.fastercap_runner import run_fastercap
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    exe = os.path.join(d, 'FasterCap')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\\necho "$@" > ' + d + '/args\\n')
    os.chmod(exe, 0o755)
    lst = os.path.join(d, 'x.lst')
    open(lst, 'w').close()
    run_fastercap(exe_path=exe, lst_file_path=lst, log_path=os.path.join(d, 'log'), tolerance=0.05, d_coeff=0.5, mesh_refinement_value=0.5,
                  ooc_condition=0, auto_preconditioner=True, galerkin_scheme=False, jacobi_preconditioner=False)
    args = open(d + '/args').read()
    print(args)
    sys.exit(0 if '-f' in args else 1)
finally:
    shutil.rmtree(d)
'''
