#!/usr/bin/env python3
"""Mutation campaign: run.py FILE.py [ID…]. FILE.py defines MUT = {id: (property or 'C01,C02', [(file, old, new), …])}.
Each mutant is applied to a scratch copy of the package, and the property's quick check is run (from a copy of /verif)
with that copy on the path. Prints one line per mutant: caught / MISSED / error."""
import os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if '/' not in a]
part = [tuple(map(int, a.split('/'))) for a in sys.argv[2:] if '/' in a]   # k/n: every nth mutant
W = tempfile.mkdtemp(prefix='kmut_')
V = W + '/v'
shutil.copytree('/verif', V, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
os.makedirs(V + '/evidence', exist_ok=True)
# several campaigns may run at a time (the mutants never alter what gen.sh makes), each with a part of the cores
JOBS = int(os.environ.get('MUT_JOBS', '8'))
h = open(V + '/harness/vlib.py').read()
h = h.replace("NPROC = min(8,", f"NPROC = min({JOBS},").replace("def gen_repo():\n", "def gen_repo():\n    return\n\n\ndef _gen_repo():\n")
open(V + '/harness/vlib.py', 'w').write(h)
try:
    for no, (i, (props, edits)) in enumerate(ns['MUT'].items()):
        if part and no % part[0][1] != part[0][0]:
            continue
        if only and i not in only and not any(i.startswith(o + '.') for o in only):
            continue
        d = f'{W}/{i}'
        shutil.copytree('/repo/klayout_pex', d + '/klayout_pex')
        for fn in ('klayout_pex_protobuf', 'pdk', 'testdata/netlistsvg'):
            if os.path.isdir('/repo/' + fn):
                shutil.copytree('/repo/' + fn, f'{d}/{fn}')
        os.makedirs(d + '/.git')     # kpex looks for it to tell a source tree from an installed package
        bad = None
        for fn, old, new in edits:
            s = open(f'{d}/{fn}').read()
            if s.count(old) != 1:
                bad = f'{fn}: {s.count(old)} occurrences of {old[:60]!r}'
                break
            open(f'{d}/{fn}', 'w').write(s.replace(old, new))
        if bad:
            print(i, 'BAD-EDIT', bad, flush=True)
            continue
        for p in props.split(','):
            e = dict(os.environ, KPEX_VERIF_PYTHONPATH=d)
            try:
                r = subprocess.run(['bash', 'run.sh', p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, errors='replace', timeout=880)
                out, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired:
                out, rc = '', 'timeout'
            w = [l for l in out.splitlines() if l.startswith('  [')]
            print(i, p, {0: 'MISSED', 1: 'caught'}.get(rc, f'rc={rc}'), (w or out.splitlines()[-1:] or [''])[0][:160], flush=True)
            if rc == 1:
                break
        shutil.rmtree(d)
finally:
    shutil.rmtree(W)
