"""Run the checks against the planted bugs: tools/seeds.py [-a] [id ...]
-a: every claimed check, else only the one of the bug's property.  Works on scratch copies."""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(args):
    sid, every = args
    d = os.path.join(HERE, 'seeded', sid)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    claimed = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    out = []
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(['cp', '-a', '/repo/abl', t], check=True)
        p = subprocess.run(['git', 'apply', '--directory=' + os.path.relpath(t, '/'),
                            '--unsafe-paths', os.path.join(d, 'patch.diff')],
                           cwd='/', capture_output=True, text=True)
        if p.returncode:
            return sid, prop, ['patch does not apply: ' + p.stderr]
        for c in (claimed if every else [prop]):
            p = subprocess.run([sys.executable, '-m', 'sa', c, '--no-evidence'], cwd=HERE,
                               env=dict(os.environ, VPATH_REPO=t), capture_output=True, text=True)
            if p.returncode == 0:
                if c == prop:
                    out.append('%s MISSED' % c)
            elif p.returncode == 1:
                out.append('%s caught by %s' % (c, sorted({l.split(': rule ')[1].split(':')[0]
                           for l in p.stdout.splitlines() if ': rule ' in l})))
            else:
                out.append('%s no answer: %s' % (c, (p.stdout.strip().splitlines() or ['?'])[-1]))
    return sid, prop, out


def main():
    every = '-a' in sys.argv
    ids = [a for a in sys.argv[1:] if a != '-a'] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(7) as ex:
        for sid, prop, out in ex.map(one, [(i, every) for i in ids]):
            print('%-28s %s %s' % (sid, prop, '; '.join(out)), flush=True)


main()
