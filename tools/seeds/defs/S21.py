PROPERTY = 'C09'
NEEDS = 'a FasterCap that ends successfully without a matrix, in a run directory with the log of an earlier run'
BREAKS = 'the log file is appended to: the matrix of the earlier run is taken for the result'
LIB = False
EDITS = [('klayout_pex/fastercap/fastercap_runner.py', "open(log_path, 'w', encoding='utf-8')", "open(log_path, 'a', encoding='utf-8')")]
DEMO = '''
import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastercap.fastercap_runner import run_fastercap, fastercap_parse_capacitance_matrix
d = tempfile.mkdtemp(prefix='kpex_demo_')
try:
    exe, log = d + '/fc', d + '/log.txt'
    def run(text):
        with open(exe, 'w') as f:
            f.write("#!/bin/bash\\ncat <<'E'\\n" + text + "\\nE\\n")
        os.chmod(exe, 0o755)
        run_fastercap(exe_path=exe, lst_file_path=d + '/x.lst', log_path=log, tolerance=0.05, d_coeff=0.5, mesh_refinement_value=0.5,
                      ooc_condition=None, auto_preconditioner=True, galerkin_scheme=False, jacobi_preconditioner=False)
        return fastercap_parse_capacitance_matrix(log)
    run('Capacitance matrix is:\\nDimension 2 x 2\\ng1_A 1 2 \\ng2_B 2 1 \\n')
    try:
        m = run('Error: cannot open the input file')
    except Exception as e:
        print('as it should be:', e)
        sys.exit(0)
    print('a result of', m.conductor_names)
    sys.exit(1)
finally:
    shutil.rmtree(d)
'''
