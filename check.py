#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]   decides one property
check.py replay <file>                    runs a recorded counterexample on the real code"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'replay':
        from lsym import build
        import subprocess
        _, b, pb, _ = build.build()
        if any(l.startswith('B ') for l in open(sys.argv[2])):
            b = pb
        h = [l.split()[1] for l in open(sys.argv[2]) if l.startswith('H ')][0]
        return subprocess.run([b, h, sys.argv[2]]).returncode
    from lsym import props, run
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = props.CHECKS[prop]
    return run.check(prop, tier, c.jobs(tier), c.seconds(tier), c.notes, c.unwind)


sys.exit(main())
