"""Runs the entry points of /verif/selftest: statements about Python that the abstract machine has to know."""
import glob
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from absint.run import Analysis, big_stack


def main():
    bad = 0
    for fn in sorted(glob.glob(ROOT + '/selftest/*.py')):
        mod = os.path.basename(fn)[:-3]
        if mod == 'base' or sys.argv[1:] and mod not in sys.argv[1:]:
            continue
        a = Analysis('/repo', ROOT + '/selftest')
        a.load([mod])
        for n, _ in a.entry_points(mod):
            r = a.run(mod, n)
            for k, v in a.ip.violations.items():
                bad += 1
                print('  ', mod, n, v['label'], v['loc'], v['at'], *v['trail'][-6:], sep='\n      ')
            a.ip.violations.clear()
            print(mod, n, r)
    return bad


sys.exit(1 if big_stack(main) else 0)
