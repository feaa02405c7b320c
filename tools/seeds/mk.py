#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/defs/*.py:
each file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text), optionally LIB=False."""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.realpath(__file__))
OUT = '/verif/seeded'
only = sys.argv[1:]
for f in sorted(glob.glob(H + '/defs/*.py')):
    i = os.path.basename(f)[:-3]
    if only and i not in only:
        continue
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diffs = []
    t = tempfile.mkdtemp(prefix='kseed_')
    files = []
    for fn, old, new in ns['EDITS']:
        src = open('/repo/' + fn).read() if fn not in files else open(f'{t}/b/{fn}').read()
        assert src.count(old) == 1, (i, fn, src.count(old), old)
        for s in 'ab':
            os.makedirs(os.path.dirname(f'{t}/{s}/{fn}'), exist_ok=True)
        if fn not in files:
            open(f'{t}/a/{fn}', 'w').write(src)
            files.append(fn)
        open(f'{t}/b/{fn}', 'w').write(src.replace(old, new))
    p = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    out = []
    for ln in p.split('\n'):
        if ln.startswith('diff -ruN'):
            a, b = ln.split()[2:4]
            ln = f'diff --git {a} {b}'
        elif ln.startswith('--- ') or ln.startswith('+++ '):
            ln = ln.split('\t')[0]
        out.append(ln)
    open(d + '/patch.diff', 'w').write('\n'.join(out))
    shutil.rmtree(t)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    if ns.get('LIB', True):
        shutil.copy(H + '/lib.py', d + '/lib.py')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\n'
                                   'unset KPEX_FASTCAP_EXE KPEX_FASTERCAP_EXE KPEX_KLAYOUT_EXE KPEX_MAGIC_EXE PDKPATH PDK\n'
                                   'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], check=True)
print('ok')
