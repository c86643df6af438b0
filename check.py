"""python3-vt check.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('property', nargs='?')
    a.add_argument('--setup', action='store_true', help='check that the tools are there')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a.add_argument('--only')
    a.add_argument('-v', action='store_true')
    a.add_argument('-j', type=int)
    n = a.parse_args()
    if n.setup:
        import subprocess
        import z3
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('z3', z3.get_version_string())
        sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', 'import numpy']))
    from symx import runner
    sys.exit(runner.main(n.property.upper(), n.tier, n.seed, n.only, n.v, n.j))
