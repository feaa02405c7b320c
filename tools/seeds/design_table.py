p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('## Planted bugs and mutants')
import json,glob
rows=[]
for f in sorted(glob.glob('/verif/seeded/S*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t='''## Planted bugs and mutants

`seeded/S..` are the planted bugs kept (source in `tools/seeds/defs`, `tools/seeds/try.sh ID` applies one, runs build, tests,
demo and checks). Each is caught by the quick check of its own property (column 2).

| id | check that catches it | what it breaks | what it needs |
|---|---|---|---|
'''+'\n'.join(rows)+'''

Besides these, campaigns of mutants (`tools/mut`, `tools/mut/run.py FILE`) run the quick checks against altered copies of the
package: eleven rounds written from the statements and the code (about 330 mutants), and 320 automatic ones (`tools/mut/auto.py`:
operators, constants, conditions and statements at random places). The checks missed these at first, and were strengthened until
they caught them: C04.b (a wire in several polygons), C07.a (summary of a resistor between the same nets), C08.a/d (a stale cache
file, schematic options), C09.f (caught under C08), C10.b/c, C11.c (lines after the last matrix), C15.c/f, C19.a/c/e (mirrored
instances, nets per layer), C22.c/e/k, C24.b/d/j. C24.c makes the code loop for ever: the time limit of a job turns that into a
violation. In the later rounds: large combs and meanders (C01), seven layers, other database units, no halo and coefficients of zero
(C02, C03, C04), `--halo 0` (C05, which found a division by zero), netlist values to seven digits (C07), GDS names that are easily
confused and files edited while they are read (C08), stale files of cells below (C09), file names with several dots (C10), values
exactly at the thresholds and networks of more than 64 devices (C13), materials of one permittivity (C14, C15: S25 was missed),
databases of hundreds of markers (C23).

Judged as not breaking anything a property says (equivalent code, text of log messages, unreachable branches, values rounded below the
tolerance): in rounds 1-8 C01.c/d, C02.a/e/f, C03.e/i, C04.e, C05.a/c, C11.b/d/f, C12.f, C13.a/b/e, C14.i, C15.a/d/e, C16.d/f/i/k,
C17.d/h, C18.a/b/c/f, C19.d/h, C21.f/k/p, C23.a/j; in round 9 c02.c, c04.b/c/e, c06.b, c08.e, c10.e/f, c19.a/c/e; in round 10 c11.d,
c16.h/k/l, c18.a/b/c/e (only other technologies would show them), c19.h (nets are flattened), c20.a/c/d/e (MAGIC writes no such lines),
c23.c/d, c24.b/g. A mutant that alters only equivalent behaviour must not be caught, so these served as a test for false alarms as well.
'''
open(p,'w').write(s[:i]+t)
