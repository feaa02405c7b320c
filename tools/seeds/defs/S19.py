PROPERTY = 'C08'
NEEDS = 'two layouts of the same relative path in different working directories, with one --cache-dir'
BREAKS = 'they share an entry of the cache: the second run works on the LVS result of the other layout'
EDITS = [('klayout_pex/kpex_cli.py', 'os.path.splitroot(os.path.abspath(args.gds_path))[-1]', 'os.path.splitroot(os.path.normpath(args.gds_path))[-1]')]
DEMO = '''
from lib import *
import time
from klayout_pex.kpex_cli import KpexCLI
top = SCRATCH
nm = {}
for k in (1, 2):
    w = os.path.join(top, f'w{k}')
    os.makedirs(w)
    ly = kdb.Layout()
    ly.create_cell('TOP').shapes(ly.layer(68, 20)).insert(kdb.Box(0, 0, 1000 * k, 500))
    ly.write(w + '/chip.gds')
    os.utime(w + '/chip.gds', (time.time() - 1000, time.time() - 1000))
    l = l2n_of([(2, f'A{k}', kdb.Box(0, 0, 3000, 200)), (2, f'B{k}', kdb.Box(0, 400, 3000, 600))])
    l.write(os.path.join(top, f'r{k}.lvsdb.gz'))
exe = os.path.join(top, 'klayout')
with open(exe, 'w') as f:
    f.write('#!/bin/bash\\necho x >> "%s/calls"\\nfor a in "$@"; do case "$a" in report=*) cp "%s/r$WHICH.lvsdb.gz" "${a#report=}";; esac; done\\n' % (top, top))
os.chmod(exe, 0o755)
os.environ['KPEX_KLAYOUT_EXE'] = exe
for k in (1, 2):
    os.chdir(os.path.join(top, f'w{k}'))
    os.environ['WHICH'] = str(k)
    KpexCLI().main(['kpex', '--pdk', 'sky130A', '--gds', 'chip.gds', '--out_dir', os.path.join(top, f'o{k}'),
                    '--cache-dir', os.path.join(top, 'cache'), '--2.5D', '--log_level', 'critical'])
os.chdir('/')
expect('calls of LVS', len(open(os.path.join(top, 'calls')).read().split()), 2)
t = open(os.path.join(top, 'o2', 'chip__TOP', 'TOP_k25d_pex_netlist.csv')).read()
expect('nets of the second layout in its result', 'A2' in t and 'A1' not in t, True)
'''
