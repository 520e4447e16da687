"""Behaviour-preserving rewrites of the whole crate: every check must stay quiet on them.

usage: tools/refactor.py [-j JOBS] [-k] RULE... | all  [-- CHECK...]
Each rule is applied at every site it fits in /repo/src (in a scratch copy); sites the compiler
rejects are dropped; then the checks are run on the rewritten copy."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blank(s):
    """same length, comments and strings blanked."""
    out = list(s)
    i = 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = len(s) if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i) + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            j += 1
        else:
            i += 1
            continue
        for k in range(i, j):
            if out[k] != '\n':
                out[k] = ' '
        i = j
    return ''.join(out)


def close(b, i):
    """index of the bracket matching the one at i."""
    pairs = {'{': '}', '(': ')', '[': ']'}
    o, cl = b[i], pairs[b[i]]
    d = 0
    for j in range(i, len(b)):
        if b[j] == o:
            d += 1
        elif b[j] == cl:
            d -= 1
            if d == 0:
                return j
    return -1


def opening(b, i):
    """first { at bracket depth 0 from i."""
    d = 0
    for j in range(i, len(b)):
        if b[j] in '([':
            d += 1
        elif b[j] in ')]':
            d -= 1
        elif b[j] == '{' and d == 0:
            return j
        elif b[j] == ';' and d == 0:
            return -1
    return -1


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            d += 1
        elif ch in ')]}>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


# every rule yields edits (start, end, replacement) on the original text

def r_while(s, b):
    n = 0
    for m in re.finditer(r"(?m)^([ \t]*)for (\w+) in ", b):
        o = opening(b, m.end())
        if o < 0:
            continue
        rng = s[m.end():o].strip()
        if rng.startswith('(') and rng.endswith(')'):
            rng = rng[1:-1]
        k = rng.split('..')
        if len(k) != 2 or not k[0].strip() or not k[1].strip():
            continue
        op = '<'
        if k[1].startswith('='):
            op, k[1] = '<=', k[1][1:]
        n += 1
        v = m.group(2)
        v2 = 'at%d' % n
        yield m.start(), o + 1, '%slet mut %s = %s; let end%d = %s;\n%swhile %s %s end%d { let %s = %s; %s += 1;' % (m.group(1), v2, k[0], n, k[1], m.group(1), v2, op, n, v if v != '_' else '_u', v2, v2)


def r_invert(s, b):
    for m in re.finditer(r"\bif ", b):
        if b[:m.start()].rstrip().endswith('else'):
            continue
        o = opening(b, m.end())
        if o < 0:
            continue
        cond = s[m.end():o].strip()
        if re.search(r'\blet\b', cond):
            continue
        e1 = close(b, o)
        m2 = re.match(r'\s*else\s*\{', b[e1 + 1:])
        if not m2:
            continue
        o2 = e1 + 1 + m2.end() - 1
        e2 = close(b, o2)
        if re.search(r'\bif\b[^{}]*\{', b[o:e2]):
            continue    # innermost only, so that edits do not nest
        yield m.start(), e2 + 1, 'if !(%s) %s else %s' % (cond, s[o2:e2 + 1], s[o:e1 + 1])


def r_swaplet(s, b):
    L = b.split('\n')
    pos = [0]
    for l in L:
        pos.append(pos[-1] + len(l) + 1)
    i = 0
    pat = r'\s*let (?:mut )?(\w+)(?:\s*:[^=]+)? = ([^;{}]*);\s*$'
    while i + 1 < len(L):
        a, c = re.match(pat, L[i]), re.match(pat, L[i + 1])
        if a and c and a.group(1) != c.group(1) and not re.search(r'\b%s\b' % a.group(1), c.group(2)) and not re.search(r'\b%s\b' % c.group(1), a.group(2)) \
                and not re.search(r'mut\b|push|pop|upgrade|downgrade|take\(|allocate|next\(|\?', a.group(2) + c.group(2)):
            yield pos[i], pos[i + 2] - 1, '\n'.join([s[pos[i + 1]:pos[i + 2] - 1], s[pos[i]:pos[i + 1] - 1]])
            i += 2
        else:
            i += 1


def r_swapset(s, b):
    L = b.split('\n')
    pos = [0]
    for l in L:
        pos.append(pos[-1] + len(l) + 1)
    i = 0
    pat = r'\s*([\w.\[\]]*\.[\w.\[\]]*) = ([^;{}()]*);\s*$'
    while i + 1 < len(L):
        a, c = re.match(pat, L[i]), re.match(pat, L[i + 1])
        if a and c and a.group(1).split('.')[-1] not in c.group(0).replace(c.group(1), '', 1) and c.group(1).split('.')[-1] not in a.group(0).replace(a.group(1), '', 1) \
                and not a.group(1).startswith(c.group(1)) and not c.group(1).startswith(a.group(1)) and a.group(1).split('.')[-1] != c.group(1).split('.')[-1]:
            yield pos[i], pos[i + 2] - 1, '\n'.join([s[pos[i + 1]:pos[i + 2] - 1], s[pos[i]:pos[i + 1] - 1]])
            i += 2
        else:
            i += 1


def r_compound(s, b):
    for m in re.finditer(r'(?m)^([ \t]*)([\w.\[\]*]+) ([-+*|&])= ([^;]*);', b):
        yield m.start(), m.end(), '%s%s = %s %s (%s);' % (m.group(1), m.group(2), m.group(2), m.group(3), s[m.start(4):m.end(4)])


def r_result(s, b):
    for m in re.finditer(r'\breturn ([^;{}]+);', b):
        yield m.start(), m.end(), 'let result = %s; return result;' % s[m.start(1):m.end(1)]


def r_early(s, b):
    """if c { return; } rest  ->  if !(c) { rest }"""
    last = -1
    for f in re.finditer(r'\bfn \w+', b):
        o = opening(b, f.end())
        if o < 0 or '->' in b[f.end():o]:
            continue
        e = close(b, o)
        i = o
        while True:
            m = re.compile(r'\bif ').search(b, i, e)
            if not m:
                break
            o2 = opening(b, m.end())
            if o2 < 0:
                break
            e2 = close(b, o2)
            cond = s[m.end():o2].strip()
            d = b[o:m.start()].count('{') - b[o:m.start()].count('}')
            if d == 1 and re.match(r'\{\s*return;\s*\}', b[o2:e2 + 1]) and 'let ' not in cond and m.start() > last:
                yield m.start(), e2 + 1, 'if !(%s) {' % cond
                yield e, e, '}'
                last = e
                break
            i = m.end()


def r_guard(s, b):
    """continue-guard of a loop body -> nested block"""
    last = -1
    for f in re.finditer(r'\b(?:for|while|loop)\b', b):
        o = opening(b, f.end()) if b[f.end():f.end() + 2] != ' {' else f.end() + 1
        if o < 0:
            continue
        e = close(b, o)
        i = o
        while True:
            m = re.compile(r'\bif ').search(b, i, e)
            if not m:
                break
            o2 = opening(b, m.end())
            if o2 < 0:
                break
            e2 = close(b, o2)
            cond = s[m.end():o2].strip()
            d = b[o:m.start()].count('{') - b[o:m.start()].count('}')
            if d == 1 and re.match(r'\{\s*continue;\s*\}', b[o2:e2 + 1]) and 'let ' not in cond and m.start() > last:
                yield m.start(), e2 + 1, 'if !(%s) {' % cond
                yield e, e, '}'
                last = e
                break
            i = m.end()


def r_noise(s, b):
    for f in re.finditer(r'\bfn \w+', b):
        o = opening(b, f.end())
        if o >= 0:
            yield o + 1, o + 1, ' let _ = 0; // nothing'


def r_block(s, b):
    for m in re.finditer(r'(?m)^[ \t]*let (\w+)(: \w+)? = ([^;{}&|]*[-+*/][^;{}&|]*);', b):
        yield m.start(3), m.end(3), '{ let computed = %s; computed }' % s[m.start(3):m.end(3)]


def r_closure(s, b):
    for m in re.finditer(r'(?m)^[ \t]*let (\w+)(: \w+)? = ([^;{}&|]*[-+*/][^;{}&|]*);', b):
        yield m.start(3), m.end(3), '(|| %s)()' % s[m.start(3):m.end(3)]


def r_args(s, b):
    """arithmetic arguments of a call statement get names"""
    n = 0
    for m in re.finditer(r'(?m)^([ \t]*)(let (?:mut )?\w+(?:: \w+)? = )?([\w.:]+)\(', b):
        o = m.end() - 1
        e = close(b, o)
        if e < 0 or b[e + 1:e + 2] != ';':
            continue
        args = split_args(s[o + 1:e])
        pre, new = '', []
        for a in args:
            if re.search(r' [-+*] ', a) and not re.search(r'[{}|]|mut\b|\?', a):
                n += 1
                pre += 'let part%d = %s;\n' % (n, a.strip())
                new.append('part%d' % n)
            else:
                new.append(a)
        if pre:
            yield m.start(), e + 1, pre + s[m.start():o + 1] + ', '.join(new) + ')'


def r_wrap(s, b):
    """the body of every function moves to a helper"""
    ends = []
    for m in re.finditer(r'(?m)^([ \t]*)((?:pub(?:\([a-z]+\))? )?(?:unsafe )?)fn (\w+)', b):
        if m.start() < (ends[-1] if ends else -1):
            continue
        # not inside a trait or trait impl
        d, j = 0, m.start()
        head = None
        while j > 0:
            j -= 1
            if b[j] == '}':
                d += 1
            elif b[j] == '{':
                if d == 0:
                    k = max(b.rfind('}', 0, j), b.rfind(';', 0, j), b.rfind('{', 0, j))
                    head = b[k + 1:j]
                    break
                d -= 1
        if head is not None and (re.search(r'\btrait\b', head) or re.search(r'\bfor\b', head) or 'mod ' in head or not re.search(r'\bimpl\b', head)):
            if not (head and 'mod ' in head):
                continue
        o = opening(b, m.end())
        if o < 0:
            continue
        e = close(b, o)
        ends.append(e)
        p = b.find('(', m.end())
        g = b[m.end():p]
        q = close(b, p)
        if '<' in g and 'fn' in g.lower() or "'" in g or 'impl' in b[p:q]:
            continue
        if "'" in b[p:o]:
            continue
        params = split_args(s[p + 1:q])
        names, sig, ok, me = [], [], True, False
        for a in params:
            a = a.strip()
            if not a or a.startswith('//'):
                ok = ok and not a
                continue
            if re.fullmatch(r'&?\s*(mut )?self', a):
                me = True
                sig.append(a.replace('mut self', 'self') if not a.startswith('&') else a)
                continue
            k = re.match(r'(?:mut )?(\w+)\s*:', a)
            if not k or '//' in a:
                ok = False
                break
            names.append(k.group(1))
            sig.append(re.sub(r'^mut ', '', a))
        if not ok:
            continue
        name = m.group(3)
        call = ('self.' if me else 'Self::' if head is not None and re.search(r'\bimpl\b', head) else '') + name + '_inner(' + ', '.join(names) + ')'
        tail = s[q + 1:o]
        ind = m.group(1)
        new = '%s%sfn %s%s(%s)%s{ %s }\n%sfn %s_inner%s' % (ind, m.group(2), name, g, ', '.join(sig), tail, call, ind, name, s[m.end():e + 1])
        yield m.start(), e + 1, new


def r_foreach(s, b):
    for m in re.finditer(r"(?m)^([ \t]*)for (\w+) in ", b):
        o = opening(b, m.end())
        if o < 0:
            continue
        rng = s[m.end():o].strip()
        if '..' not in rng:
            continue
        e = close(b, o)
        body = b[o:e + 1]
        if re.search(r'\b(return|break|continue)\b|\?', body) or re.search(r'\bfor\b', body[1:]):
            continue
        yield m.start(), e + 1, '%s(%s).for_each(|%s| %s);' % (m.group(1), rng.strip('()') if rng.startswith('(') and rng.endswith(')') else rng, m.group(2), s[o:e + 1])


def r_loop(s, b):
    for m in re.finditer(r"(?m)^([ \t]*)while ", b):
        o = opening(b, m.end())
        if o < 0 or re.match(r'\s*let\b', b[m.end():]):
            continue
        yield m.start(), o + 1, '%sloop { if !(%s) { break; }' % (m.group(1), s[m.end():o].strip())


def r_iternext(s, b):
    n = 0
    for m in re.finditer(r"(?m)^([ \t]*)for ([\w&(), ]+) in ", b):
        o = opening(b, m.end())
        if o < 0:
            continue
        n += 1
        yield m.start(), o + 1, '%slet mut walk%d = (%s).into_iter();\n%swhile let Some(%s) = walk%d.next() {' % (m.group(1), n, s[m.end():o].strip(), m.group(1), m.group(2), n)


def r_matchlet(s, b):
    for m in re.finditer(r"(?m)^([ \t]*)if let ", b):
        o = opening(b, m.end())
        if o < 0:
            continue
        head = s[m.end():o]
        k = re.match(r'(.*?)(?<![=!<>])=(?!=)(.*)$', head, re.S)
        if not k or '&&' in head:
            continue
        e = close(b, o)
        m2 = re.match(r'\s*else\s*\{', b[e + 1:])
        if re.match(r'\s*else\s+if', b[e + 1:]):
            continue
        if re.search(r'\bif let\b', b[o:e]):
            continue
        rest, end = '{}', e
        if m2:
            o2 = e + 1 + m2.end() - 1
            end = close(b, o2)
            rest = s[o2:end + 1]
            if re.search(r'\bif let\b', rest):
                continue
        yield m.start(), end + 1, '%smatch %s { %s => %s _ => %s }' % (m.group(1), k.group(2).strip(), k.group(1).strip(), s[o:e + 1], rest)


def r_boolvar(s, b):
    n = 0
    for m in re.finditer(r"(?m)^([ \t]*)if ", b):
        o = opening(b, m.end())
        if o < 0 or 'let ' in b[m.end():o] or '//' in s[m.end():o]:
            continue
        n += 1
        yield m.start(), o, '%slet decided%d: bool = %s;\n%sif decided%d ' % (m.group(1), n, s[m.end():o].strip(), m.group(1), n)


def r_demorgan(s, b):
    for m in re.finditer(r"\bif ", b):
        o = opening(b, m.end())
        if o < 0 or 'let ' in b[m.end():o] or '//' in s[m.end():o]:
            continue
        cond = s[m.end():o].strip()
        bc = b[m.end():o]
        for op, other in (('&&', '||'), ('||', '&&')):
            if op in bc and other not in bc and '(' not in bc.replace('()', ''):
                parts = [p.strip() for p in cond.split(op)]
                yield m.end(), o, '!(%s) ' % (' %s ' % other).join('!(%s)' % p for p in parts)


def r_nestif(s, b):
    for m in re.finditer(r"(?m)^([ \t]*)if ", b):
        o = opening(b, m.end())
        if o < 0 or 'let ' in b[m.end():o] or '//' in s[m.end():o]:
            continue
        bc = b[m.end():o]
        if bc.count('&&') != 1 or '||' in bc or '(' in bc.replace('()', ''):
            continue
        e = close(b, o)
        if re.match(r'\s*else\b', b[e + 1:]):
            continue
        x, y = s[m.end():o].split('&&')
        yield m.end(), o + 1, '%s { if %s {' % (x.strip(), y.strip())
        yield e, e, '}'


RULES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('r_')}


def files(root):
    out = []
    for d, _, fs in os.walk(root + '/src'):
        out += [os.path.join(d, f) for f in fs if f.endswith('.rs')]
    return sorted(out)


def compile_errors(w):
    p = subprocess.run(['cargo', 'check', '--offline', '--lib', '--features', 'serde_support', '--message-format', 'json'], cwd=w + '/repo', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=dict(os.environ, CARGO_TARGET_DIR=w + '/target'))
    out = []
    for l in p.stdout.decode().splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            sp = [x for x in m['message']['spans']]
            out.append([(x['file_name'], x['byte_start'], x['byte_end']) for x in sp])
    return p.returncode, out


def apply(w, rules, only=None):
    src = {f: open(f, newline='', encoding='utf-8').read() for f in files('/repo')}
    ed = {}
    for f, s in src.items():
        if only and only not in f:
            continue
        if '/private/' in f and False:
            continue
        got = []
        end = -1
        es = sorted(set(x for x in RULES[rules](s, blank(s))))
        if rules in ('early', 'guard', 'nestif'):
            ed[f] = [[x] for x in es]
            # pair openers and closers
            op = [x for x in es if x[0] != x[1]]
            cl = [x for x in es if x[0] == x[1]]
            ed[f] = [[a, next(c for c in cl if c[0] > a[0])] for a in op] if rules != 'nestif' else [[a, (close(blank(s), a[0] + re.search(r'\{', blank(s)[a[0]:]).start()),) * 2 + ('}',)] for a in op]
            continue
        for x in es:
            if x[0] >= end:
                got.append([x])
                end = max(x[1], x[0])
        ed[f] = got
    for _ in range(40):
        where = {}
        for f, g in ed.items():
            s = src[f]
            flat = sorted((x, k) for k, grp in enumerate(g) for x in grp)
            out, at, n, rec = [], 0, 0, []
            for (a, z, new), k in flat:
                out.append(s[at:a])
                n += len(s[at:a].encode())
                rec.append((n, n + len(new.encode()), k))
                out.append(new)
                n += len(new.encode())
                at = z
            out.append(s[at:])
            t = w + '/repo' + f[len('/repo'):]
            txt = ''.join(out)
            if open(t, newline='', encoding='utf-8').read() != txt:
                open(t, 'w', newline='', encoding='utf-8').write(txt)
            where[f[len('/repo/'):]] = (f, rec)
        rc, errs = compile_errors(w)
        if rc == 0:
            return sum(len(g) for g in ed.values())
        drop = set()
        for spans in errs:
            for fn, a, z in spans:
                if fn not in where:
                    continue
                f, rec = where[fn]
                near = [k for x, y, k in rec if x <= z and a <= y]
                if not near and rec:
                    near = [min(rec, key=lambda q: min(abs(q[0] - a), abs(q[1] - a)))[2]]
                drop |= {(f, k) for k in near}
        if not drop:
            raise SystemExit('cannot repair %s: %s' % (rules, errs[:3]))
        for f in ed:
            ed[f] = [g for k, g in enumerate(ed[f]) if (f, k) not in drop]
    raise SystemExit('too many rounds for ' + rules)


def main():
    a = sys.argv[1:]
    jobs, keep, only = 7, False, None
    rules, checks = [], []
    while a:
        x = a.pop(0)
        if x == '-j':
            jobs = int(a.pop(0))
        elif x == '-k':
            keep = True
        elif x == '-f':
            only = a.pop(0)
        elif x == '--':
            checks = a
            break
        else:
            rules.append(x)
    if rules == ['all']:
        rules = list(RULES)
    if not checks:
        checks = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    bad = 0
    for rule in rules:
        w = tempfile.mkdtemp(prefix='ref')
        try:
            shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
            os.mkdir(w + '/verif')
            for d in ('analysis', 'driver', 'build'):
                shutil.copytree(VERIF + '/' + d, w + '/verif/' + d, ignore=shutil.ignore_patterns('driver-target', 'target', '__pycache__', '*.json'))
            shutil.copy(VERIF + '/check.py', w + '/verif')
            shutil.copy(VERIF + '/known_findings.txt', w + '/verif')
            os.mkdir(w + '/verif/evidence')
            n = apply(w, rule, only)
            env = dict(os.environ, B2_REPO=w + '/repo')

            def one(ck):
                p = subprocess.run(['python3', 'check.py', ck], cwd=w + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                return ck, p.returncode, p.stdout.decode('utf-8', 'replace')
            first = one(checks[0])
            with ThreadPoolExecutor(jobs) as ex:
                res = [first] + list(ex.map(one, checks[1:]))
            noisy = [x for x in res if x[1]]
            bad += len(noisy)
            print('%s: %d sites, %d checks, not quiet: %s' % (rule, n, len(res), ' '.join(x[0] for x in noisy) or 'none'), flush=True)
            for ck, rc, o in noisy:
                ls = [l for l in o.splitlines() if 'broken' in l] or o.strip().splitlines()[-2:]
                for l in ls[:6]:
                    print('    %s %d %s' % (ck, rc, l.strip()[:260]), flush=True)
                if len(ls) > 6:
                    print('    %s … %d in all' % (ck, len(ls)))
            if keep:
                print('kept', w)
        finally:
            if not keep:
                shutil.rmtree(w)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
