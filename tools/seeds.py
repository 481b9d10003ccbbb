"""Runs the check of each planted change's property against a copy of the tree with the change.

    python3 tools/seeds.py [id ...]

Prints one line per change: id, property, exit code, the first obligation that fails. A tool for development: no check
reads the planted changes."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(HERE, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp()
    try:
        tree = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', tree], check=True)
        r = subprocess.run(['git', '-C', tree, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return sid, prop, 'patch does not apply', ''
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--repo', tree, '--jobs', '2'],
                           capture_output=True, text=True, cwd=HERE)
        lines = [l.strip() for l in r.stdout.splitlines() if re.match(r'\s+\S.*\[spec_', l)]
        return sid, prop, r.returncode, lines[0] if lines else ''
    finally:
        shutil.rmtree(tmp)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, ids):
            print('%s %s exit=%s  %s' % r, flush=True)


if __name__ == '__main__':
    main()
