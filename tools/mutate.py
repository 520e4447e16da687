"""Mutation sampling: which small source changes do the checks notice?

usage: tools/mutate.py [-n COUNT] [-s SEED] [-j JOBS] [--lines A-B] FILE CHECK...
Works on copies of /repo and /verif under a scratch directory that is removed afterwards."""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' < ', ' <= '), (r' > ', ' < '), (r' <= ', ' < '), (r' >= ', ' < '),
         (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\.x\b', '.y'), (r'\.y\b', '.x'),
         (r'(?<=\w)_a\b', '_b'), (r'(?<=\w)_b\b', '_a'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '2.0'),
         (r'\b0\.5\b', '0.25'), (r'if !', 'if '), (r'\+= ', '-= '), (r'-= ', '+= '), (r'b2_min', 'b2_max'), (r'b2_max', 'b2_min'),
         (r'\bi1\b', 'i2'), (r'\b1\b(?!\.)', '2'), (r'\b0\b(?!\.)', '1'), (r'lower', 'upper'), (r'upper', 'lower'), (r'mul_t_', 'mul_'),
         (r'= -', '= '), (r'\bm_prev\b', 'm_next'), (r'\bm_next\b', 'm_prev'), (r'set_awake\(true\)', 'set_awake(false)'), (r'continue;', '{}'), (r'break;', '{}')]


def sites(path, lo, hi):
    out = []
    lines = open(path, newline='').read().split('\n')
    for n, l in enumerate(lines):
        if not lo <= n + 1 <= hi:
            continue
        code = l.split('//')[0]
        if not code.strip() or re.match(r'\s*(use|pub use|mod|#|pub fn|fn|impl|pub struct|pub enum|where|struct|enum|pub type|type|pub trait|trait|const|pub const)\b', code):
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                out.append((n, l[:m.start()] + rep + l[m.end():]))
        if re.match(r'^\s*[\w\.\[\]\*\(\)& ]+ ([-+*/|&^]?=) [^;]*;\s*\r?$', code) and not re.match(r'\s*(let|const)\b', code) or re.match(r'^\s*[\w\.\[\]\*]+\([^;]*\);\s*\r?$', code) and not re.match(r'\s*return', code):
            out.append((n, '\r' if l.endswith('\r') else ''))
    return lines, out


def main():
    a = sys.argv[1:]
    count, seed, jobs, lo, hi = 20, 1, 7, 1, 10 ** 9
    while a and a[0].startswith('-'):
        o = a.pop(0)
        v = a.pop(0)
        if o == '-n':
            count = int(v)
        elif o == '-s':
            seed = int(v)
        elif o == '-j':
            jobs = int(v)
        elif o == '--lines':
            lo, hi = [int(x) for x in v.split('-')]
    f, checks = a[0], a[1:]
    lines, ss = sites('/repo/' + f, lo, hi)
    random.Random(seed).shuffle(ss)
    ss = ss[:count]
    root = tempfile.mkdtemp(prefix='mut')
    q = Queue()
    try:
        for j in range(min(jobs, len(ss))):
            w = '%s/%d' % (root, j)
            shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
            os.mkdir(w + '/verif')
            for d in ('analysis', 'driver', 'build'):
                shutil.copytree(VERIF + '/' + d, w + '/verif/' + d, ignore=shutil.ignore_patterns('driver-target', 'target', '__pycache__', '*.json'))
            shutil.copy(VERIF + '/check.py', w + '/verif')
            shutil.copy(VERIF + '/known_findings.txt', w + '/verif')
            os.mkdir(w + '/verif/evidence')
            q.put(w)

        def one(s):
            w = q.get()
            try:
                n, new = s
                t = w + '/repo/' + f
                with open(t, 'w', newline='') as fh:
                    fh.write('\n'.join(lines[:n] + [new] + lines[n + 1:]))
                env = dict(os.environ, B2_REPO=w + '/repo')
                res = 'MISSED'
                note = ''
                for ck in checks:
                    p = subprocess.run(['python3', 'check.py', ck], cwd=w + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    o = p.stdout.decode('utf-8', 'replace')
                    if p.returncode == 1 and 'VIOLATION' in o:
                        res, note = 'caught', ck
                        break
                    if p.returncode:
                        res, note = ('uncompilable', '') if 'error' in o and 'cargo check' in o else ('CHECK-ERROR', ck + ' ' + o.strip().splitlines()[-1][:150])
                        break
                shutil.copy('/repo/' + f, t)
                return res, n, new, note
            finally:
                q.put(w)
        tally = {}
        with ThreadPoolExecutor(jobs) as ex:
            for res, n, new, note in ex.map(one, ss):
                tally[res] = tally.get(res, 0) + 1
                if res not in ('caught', 'uncompilable'):
                    print('%s %s:%d\n    - %s\n    + %s   %s' % (res, f, n + 1, lines[n].strip(), new.strip(), note), flush=True)
        print(tally)
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main()
