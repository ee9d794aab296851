"""Prepares the framework: the Java evaluation of Num.tla, and the build of /repo with the harness programs (also done on demand by every check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rt, buildlib
rt.classes()
CWD = [p for p in ('h_util', 'h_proc') if os.path.exists(os.path.join(rt.VERIF, 'harness', p + '.cpp'))]
for variant, progs in (('base', [f[:-4] for f in sorted(os.listdir(os.path.join(rt.VERIF, 'harness'))) if f.endswith('.cpp') and f[:-4] not in CWD]), ('cwd', CWD)):
    buildlib.build(progs, variant)
print('ready')
