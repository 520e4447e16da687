"""Canonical value domain for the gated value-numbering dataflow analysis.

A value is a node id.  A node is either a terminal or an ITE over a boolean atom
(so every value is a reduced ordered multi-terminal decision diagram; booleans are
the special case with terminals TRUE/FALSE).  Numeric terminals are multivariate
polynomials with rational coefficients over opaque atoms, so re-association,
commutation, helper extraction and statement order do not change the node id.
"""
import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)

_nodes = []          # id -> ('ite', var, hi, lo) | ('t', payload)
_index = {}
_atoms = []          # var -> payload
_atom_index = {}

BIG = 6000           # node-count bound for one value


def _mk(n):
    i = _index.get(n)
    if i is None:
        i = len(_nodes)
        _nodes.append(n)
        _index[n] = i
    return i


def term(payload):
    return _mk(('t', payload))


TRUE = term(('true',))
FALSE = term(('false',))
BOTTOM = term(('app', 'bottom', ()))    # value on an infeasible branch; absorbed by joins


def is_term(n):
    return _nodes[n][0] == 't'


def payload(n):
    k = _nodes[n]
    return k[1] if k[0] == 't' else None


def node(n):
    return _nodes[n]


def var_of(atom):
    v = _atom_index.get(atom)
    if v is None:
        v = len(_atoms)
        _atoms.append(atom)
        _atom_index[atom] = v
    return v


def atom_of(v):
    return _atoms[v]


# ---------------------------------------------------------------- polynomials
# poly: tuple of (mono, coeff) sorted by mono; mono: tuple of (atomnode, exp)

ZERO_P = ()


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _rdiv(a, b):
    return _q(Fraction(a) / Fraction(b))


def pconst(c):
    c = _q(Fraction(c))
    return () if c == 0 else (((), c),)


def patom(a):
    p = _cut_def.get(a)
    return p if p is not None and len(p) <= CUT else ((((a, 1),), 1),)


# Fingerprints: every numeric value has a value in Z_p obtained by giving each opaque atom an
# independent pseudo-random element (polynomial identity testing).  Two numeric terminals with the
# same fingerprint are the same node, so ring identities hold even across cut points.
PRIME = (1 << 127) - 1
CUT = 48
MAXTERMS = 160
_fp_atom = {}
_fp_node = {}        # num node -> fingerprint
_fp_index = {}       # fingerprint -> num node
_cut_def = {}        # cut atom -> poly


def _fpc(c):
    if isinstance(c, int):
        return c % PRIME
    return c.numerator * pow(c.denominator, -1, PRIME) % PRIME


def fp_atom(a):
    r = _fp_atom.get(a)
    if r is None:
        p = _nodes[a][1]
        if p[0] == 'app' and p[1] == 'inv':
            r = pow(_fp_node[p[2][0]], -1, PRIME)
        elif p[0] == 'app' and p[1] == 'cut':
            r = _fp_node[p[2][0]]
        else:
            r = int.from_bytes(hashlib.sha256(b'%d' % a).digest()[:16], 'big') % PRIME
        _fp_atom[a] = r
    return r


def fp_poly(p):
    t = 0
    for m, c in p:
        x = _fpc(c)
        for a, e in m:
            f = fp_atom(a)
            x = x * (f if e == 1 else pow(f, e, PRIME)) % PRIME
        t += x
    return t % PRIME


def cut(p):
    """opaque atom standing for a large polynomial."""
    n = num(p)
    q = payload(n)[1]
    if len(q) <= 8:
        return q
    a = term(('app', 'cut', (n,)))
    return ((((a, 1),), 1),)


def _norm(d):
    return tuple(sorted(((m, _q(c)) for m, c in d.items() if c != 0), key=_mkey))


def _mkey(mc):
    return mc[0]


def padd(a, b, k=1):
    if not b:
        return a
    if not a and k == 1:
        return b
    if len(a) + len(b) > MAXTERMS:
        if len(a) > CUT:
            a = cut(a)
        if len(b) > CUT:
            b = cut(b)
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + c * k
    return _norm(d)


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


_sqrt_arg = {}   # atomnode -> poly


def pmul(a, b):
    if not a or not b:
        return ()
    if len(a) * len(b) > MAXTERMS:
        if len(a) >= len(b) and len(a) > 1:
            a = cut(a)
        if len(a) * len(b) > MAXTERMS and len(b) > 1:
            b = cut(b)
    d = {}
    fix = False
    for m1, c1 in a:
        for m2, c2 in b:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
            for at, e in m:
                if (e >= 2 or e <= -2) and at in _sqrt_arg:
                    fix = True
    r = _norm(d)
    return _reduce_sqrt(r) if fix else r


def _reduce_sqrt(p):
    out = ()
    for m, c in p:
        q = ((tuple(), c),)
        rest = []
        for at, e in m:
            if at in _sqrt_arg and e >= 2:
                k = e // 2
                for _ in range(k):
                    q = pmul(q, _sqrt_arg[at])
                if e % 2:
                    rest.append((at, 1))
            elif at in _sqrt_arg and e <= -2:
                k = (-e) // 2
                for _ in range(k):
                    q = pmul(q, pinv(_sqrt_arg[at]))
                if (-e) % 2:
                    rest.append((at, -1))
            else:
                rest.append((at, e))
        out = padd(out, pmul(q, ((tuple(rest), 1),)))
    return out


def pscale(a, k):
    k = _q(k)
    if k == 0:
        return ()
    return tuple((m, _q(c * k)) for m, c in a)


def pisconst(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def pcval(p):
    return p[0][1] if p else 0


_inv_arg = {}    # atomnode -> poly


def pinv(p):
    """1/p as a polynomial over atoms (monomials inverted exactly, else an inv atom)."""
    if pisconst(p):
        c = pcval(p)
        if c == 0:
            return patom(term(('app', 'inv0', ())))
        return pconst(_rdiv(1, c))
    if len(p) == 1:
        m, c = p[0]
        r = pconst(_rdiv(1, c))
        for a, e in m:
            if a in _inv_arg:
                q = _inv_arg[a]
                if e > 0:
                    for _ in range(e):
                        r = pmul(r, q)
                else:
                    r = pmul(r, ((((a, -e),), 1),))
            else:
                r = pmul(r, ((((a, -e),), 1),))
        return r
    lead = p[-1][1]
    q = pscale(p, _rdiv(1, lead))
    a = term(('app', 'inv', (num(q),)))
    _inv_arg[a] = q
    return pscale(patom(a), _rdiv(1, lead))


def num(p):
    i = _index.get(('t', ('num', p)))
    if i is not None:
        return i
    f = fp_poly(p)
    i = _fp_index.get(f)
    if i is None:
        i = term(('num', p))
        _fp_index[f] = i
        _fp_node[i] = f
    return i


def const(c):
    return num(pconst(c))


ZERO = const(0)
ONE = const(1)


def isbool(n):
    k = _nodes[n]
    while k[0] != 't':
        k = _nodes[k[2]]
    return k[1] in (('true',), ('false',))


def isnum(n):
    p = payload(n)
    return p is not None and p[0] == 'num'


def poly(n):
    """polynomial of a terminal (opaque terminals become atoms)."""
    p = payload(n)
    if p[0] == 'num':
        return p[1]
    if p == ('true',):
        return pconst(1)
    if p == ('false',):
        return ()
    return patom(n)


# ---------------------------------------------------------------- ITE core

def mk_ite(var, hi, lo):
    if hi == lo or lo == BOTTOM:
        return hi
    if hi == BOTTOM:
        return lo
    pa = _pos_of_var.get(var)
    if pa is not None:
        # under q < 0, pos(q) is 0; otherwise it is q
        hi, lo = _subst(hi, pa, ()), _subst(lo, pa, _atoms[var][1])
        if hi == lo:
            return hi
    nh, nl = _nodes[hi], _nodes[lo]
    if nh[0] == 't' and nl[0] == 't':
        ph, pl = nh[1], nl[1]
        r = _merge_struct(var, ph, pl, hi, lo)
        if r is not None:
            return r
        at = _atoms[var]
        if at[0] == 'eq' and ph[0] == 'num' and pl[0] == 'num' and _same_at_zero(at[1], ph[1], pl[1]):
            return lo
        if at[0] == 'lt' and ph[0] == 'num' and pl[0] == 'num':
            r = _fold_minmax(at[1], ph[1], pl[1])
            if r is not None:
                return r
    elif _atoms[var][0] in ('lt', 'eq'):
        r = _fold_deep(var, hi, lo)
        if r is not None:
            return r
    return _mk(('ite', var, hi, lo))


def _same_at_zero(q, h, l):
    """h and l agree where q is 0: they differ by a multiple of it."""
    d = padd(h, l, -1)
    if len(d) == len(q) and all(x[0] == y[0] for x, y in zip(d, q)):
        k = Fraction(d[0][1]) / q[0][1]
        if all(x[1] == k * y[1] for x, y in zip(d, q)):
            return True
    return fp_poly(d) in (fp_poly(q), -fp_poly(q) % PRIME)


class _NoFold(Exception):
    pass


def _fold_deep(var, hi, lo):
    """as _fold_minmax when both branches test further conditions: the test of var
    disappears when it does so for every pair of leaves reached together."""
    kind, q = _atoms[var][0], _atoms[var][1]
    seen = {}

    def go(h, l):
        if h == l:
            return h
        r = seen.get((h, l))
        if r is not None:
            return r
        if len(seen) > 300:
            raise _NoFold()
        nh, nl = _nodes[h], _nodes[l]
        if nh[0] == 't' and nl[0] == 't':
            if nh[1][0] != 'num' or nl[1][0] != 'num':
                raise _NoFold()
            if kind == 'eq':
                r = l if _same_at_zero(q, nh[1][1], nl[1][1]) else None
            else:
                r = _fold_minmax(q, nh[1][1], nl[1][1])
            if r is None:
                raise _NoFold()
        else:
            v = min(x[1] for x in (nh, nl) if x[0] == 'ite')
            h1, h2 = (nh[2], nh[3]) if nh[0] == 'ite' and nh[1] == v else (h, h)
            l1, l2 = (nl[2], nl[3]) if nl[0] == 'ite' and nl[1] == v else (l, l)
            r = mk_ite(v, go(h1, l1), go(h2, l2))
        seen[(h, l)] = r
        return r
    try:
        return go(hi, lo)
    except _NoFold:
        return None


_zero_memo = {}


def vanishes(n, eqs=()):
    """n is 0 wherever it is reached: every leaf is 0, or a multiple of some
    q on a branch taken only when q == 0."""
    r = _zero_memo.get((n, eqs))
    if r is None:
        k = _nodes[n]
        if k[0] == 't':
            r = k[1][0] == 'num' and (not k[1][1] or any(
                _multiple(k[1][1], _atoms[v][1]) for v in eqs) or _eliminated(n, eqs))
        else:
            e = eqs + (k[1],) if _atoms[k[1]][0] == 'eq' else eqs
            r = vanishes(k[2], e) and vanishes(k[3], eqs)
        _zero_memo[(n, eqs)] = r
    return r


def _eliminated(n, eqs):
    """the leaf is 0 once each quantity known to be 0 is solved for one of its atoms."""
    for v in eqs:
        q = _atoms[v][1]
        for m, c in q:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = pscale(padd(q, ((m, c),), -1), Fraction(-1) / c)
                if len(rest) > 6:
                    break
                try:
                    n = _replace(n, a, num(rest), {})
                except RecursionError:
                    return False
                break
    return vanishes(n)


def _replace(n, a, x, memo):
    """the atom a replaced by the value x in a value (tests below it are left alone)."""
    r = memo.get(n)
    if r is not None:
        return r
    k = _nodes[n]
    if n == a:
        r = x
    elif k[0] == 'ite':
        r = n
    else:
        p = k[1]
        r = n
        if p[0] == 'num':
            r = ZERO
            for m, c in p[1]:
                t = const(c)
                for b, e in m:
                    y = _replace(b, a, x, memo)
                    for _ in range(abs(e)):
                        t = mul(t, y) if e > 0 else div(t, y)
                r = add(r, t)
        elif p[0] == 'app' and p[1] in _REBUILD:
            ys = [_replace(y, a, x, memo) for y in p[2]]
            if ys != list(p[2]):
                r = _REBUILD[p[1]](*ys)
    memo[n] = r
    return r


def _multiple(d, q):
    if len(d) == len(q) and all(x[0] == y[0] for x, y in zip(d, q)):
        f = Fraction(d[0][1]) / q[0][1]
        return all(x[1] == f * y[1] for x, y in zip(d, q))
    return False


_pos_of_var = {}
_mentions_memo = {}
_subst_memo = {}


def _mentions(n):
    """the pos(...) atoms in the values (not the conditions) below n."""
    r = _mentions_memo.get(n)
    if r is None:
        k = _nodes[n]
        if k[0] == 'ite':
            r = _mentions(k[2]) | _mentions(k[3])
        else:
            p = k[1]
            r = frozenset()
            if p[0] == 'num':
                for m, _ in p[1]:
                    for a, _e in m:
                        r |= _mentions(a)
            elif p[0] == 'app':
                if p[1] == 'pos':
                    r = frozenset([n])
                for x in p[2]:
                    if isinstance(x, int):
                        r |= _mentions(x)
            if len(r) > 400:
                r = frozenset(sorted(r)[:400])
        _mentions_memo[n] = r
    return r


def _subst(n, a, q):
    """replace the atom a by the polynomial q in the values below n."""
    if a not in _mentions(n):
        return n
    key = (n, a, q)
    r = _subst_memo.get(key)
    if r is not None:
        return r
    k = _nodes[n]
    if k[0] == 'ite':
        r = mk_ite(k[1], _subst(k[2], a, q), _subst(k[3], a, q))
    else:
        p = k[1]
        if n == a:
            r = num(q)
        elif p[0] == 'num':
            r = ZERO
            for m, c in p[1]:
                t = const(c)
                for b, e in m:
                    x = _subst(b, a, q)
                    for _ in range(abs(e)):
                        t = mul(t, x) if e > 0 else div(t, x)
                r = add(r, t)
        elif p[0] == 'app' and p[1] in _REBUILD:
            r = _REBUILD[p[1]](*[_subst(x, a, q) for x in p[2]])
        else:
            r = n
    _subst_memo[key] = r
    return r


_REBUILD = {}


def _fold_minmax(q, h, l):
    """ite(q < 0, h, l) with h - l = c*q is h - c*max(q, 0): one canonical form for min, max, abs and clamp."""
    d = padd(h, l, -1)
    cands = []
    if len(d) == len(q) and all(x[0] == y[0] for x, y in zip(d, q)):
        cands.append(_rdiv(d[0][1], q[0][1]))
    elif len(d) > CUT or len(q) > CUT or _has_cut(d) or _has_cut(q):
        cands += [1, -1, 2, -2]
    if not cands:
        return None
    fd, fq = fp_poly(d), fp_poly(q)
    for c in cands:
        if fd == _fpc(c) * fq % PRIME:
            a = term(('app', 'pos', (num(q),)))
            _pos_of_var[var_of(('lt', q))] = a
            return num(padd(h, pscale(patom(a), c), -1))
    return None


def _has_cut(p):
    for m, _ in p:
        for a, _e in m:
            x = _nodes[a][1]
            if x[0] == 'app' and x[1] == 'cut':
                return True
    return False


def _structlike(p):
    return p[0] in ('agg', 'upd')


def _merge_struct(var, ph, pl, hi, lo):
    """ite over two struct values with the same shape is pushed into the fields."""
    if ph[0] == 'agg' and pl[0] == 'agg':
        if ph[1] != pl[1] or ph[2] != pl[2]:
            return None
        ks = [k for k, _ in ph[3]]
        if ks != [k for k, _ in pl[3]]:
            return None
        fs = tuple((k, mk_bdd_ite(var, a, b)) for (k, a), (_, b) in zip(ph[3], pl[3]))
        return term(('agg', ph[1], ph[2], fs))
    if ph[0] == 'flags' and pl[0] == 'flags' and ph[1] == pl[1]:
        bits = {}
        for k, v in ph[2]:
            bits[k] = [v, None]
        for k, v in pl[2]:
            bits.setdefault(k, [None, None])[1] = v
        out = []
        for k in sorted(bits):
            a, b = bits[k]
            if a is None:
                a = flag_atom(ph[1], k)
            if b is None:
                b = flag_atom(ph[1], k)
            out.append((k, mk_bdd_ite(var, a, b)))
        return mk_flags(ph[1], out)

    for x, y, yn, sw in ((ph, pl, lo, False), (pl, ph, hi, True)):
        if x[0] == 'agg' and x[2] is None and x[1] != 'vec' and not isinstance(x[1], tuple) and (y[0] == 'upd' or y[0] in ('sym', 'proj') or y[0] == 'app' and y[1] in ('hv', 'user')) and x[3]:
            fs = []
            for k, a in x[3]:
                b = None
                base = yn
                if y[0] == 'upd':
                    b = dict(y[2]).get(k)
                    base = y[1]
                if b is None:
                    b = proj_typed_like(base, k, a)
                fs.append((k, mk_bdd_ite(var, b, a) if sw else mk_bdd_ite(var, a, b)))
            return term(('agg', x[1], None, tuple(fs)))

    def split(p, n):
        if p[0] == 'upd':
            return p[1], dict(p[2])
        return n, {}
    bh, uh = split(ph, hi)
    bl, ul = split(pl, lo)
    if bh == bl and (uh or ul) and (ph[0] == 'upd' or pl[0] == 'upd'):
        keys = sorted(set(uh) | set(ul), key=repr)
        fs = []
        for k in keys:
            a = uh.get(k)
            b = ul.get(k)
            if a is None:
                a = proj_typed_like(bh, k, b)
            if b is None:
                b = proj_typed_like(bh, k, a)
            fs.append((k, mk_bdd_ite(var, a, b)))
        return mk_upd(bh, fs)
    return None


def mk_bdd_ite(var, hi, lo):
    """ite on a variable where hi/lo may contain smaller variables."""
    return ite(_mk(('ite', var, TRUE, FALSE)), hi, lo)


def mk_upd(base, fs):
    pb = payload(base)
    out = []
    for k, v in fs:
        if is_default_proj(base, k, v):
            continue
        out.append((k, v))
    if not out:
        return base
    return term(('upd', base, tuple(sorted(out, key=lambda kv: repr(kv[0])))))


def is_default_proj(base, k, v):
    p = payload(v)
    if p is None:
        nd = _nodes[v]
        if nd[2] == TRUE and nd[3] == FALSE:
            at = _atoms[nd[1]]
            return at == ('b', term(('proj', base, k)))
        return False
    pr = _index.get(('t', ('proj', base, k)))
    if pr is None:
        return False
    if v == pr:
        return True
    if p[0] == 'num':
        return p[1] == patom(pr)
    if p[0] == 'ptr':
        return p[1] == ('H', pr) and p[2] == ()
    return False


def proj_typed_like(base, k, other):
    """projection base.k wrapped in the same kind of value as `other`."""
    pr = term(('proj', base, k))
    return like(pr, other)


def like(pr, other):
    o = other
    while not is_term(o):
        o = _nodes[o][2]
    p = payload(o)
    if p[0] in ('true', 'false'):
        return boolsym(pr)
    if p[0] == 'num':
        return num(patom(pr))
    if p[0] == 'ptr':
        return term(('ptr', ('H', pr), ()))
    return pr


def boolsym(pr):
    return _mk(('ite', var_of(('b', pr)), TRUE, FALSE))


def top(*ns):
    v = None
    for n in ns:
        k = _nodes[n]
        if k[0] == 'ite' and (v is None or k[1] < v):
            v = k[1]
    return v


def cof(n, v, side):
    k = _nodes[n]
    if k[0] == 'ite' and k[1] == v:
        return k[2] if side else k[3]
    return n


_ite_memo = {}


def ite(c, a, b):
    """general ite with boolean node c."""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b or b == BOTTOM:
        return a
    if a == BOTTOM:
        return b
    if a == TRUE and b == FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = top(c, a, b)
    hi = ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1))
    lo = ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0))
    r = mk_ite(v, hi, lo)
    _ite_memo[key] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def XOR(a, b):
    return ite(a, NOT(b), b)


def IMPLIES(a, b):
    return ite(a, b, TRUE)


_ap1 = {}


def apply1(key, f, a):
    if is_term(a):
        return f(a)
    k = (key, a)
    r = _ap1.get(k)
    if r is None:
        _, v, hi, lo = _nodes[a]
        h = apply1(key, f, hi)
        l = apply1(key, f, lo)
        r = mk_bdd_ite(v, h, l)
        _ap1[k] = r
    return r


_ap2 = {}


def apply2(key, f, a, b):
    if is_term(a) and is_term(b):
        return f(a, b)
    k = (key, a, b)
    r = _ap2.get(k)
    if r is None:
        v = top(a, b)
        h = apply2(key, f, cof(a, v, 1), cof(b, v, 1))
        l = apply2(key, f, cof(a, v, 0), cof(b, v, 0))
        r = mk_bdd_ite(v, h, l)
        _ap2[k] = r
    return r


def applyn(key, f, args):
    if all(is_term(a) for a in args):
        return f(*args)
    if key is not None:
        k = (key,) + tuple(args)
        r = _ap2.get(k)
        if r is not None:
            return r
    v = top(*args)
    h = applyn(key, f, [cof(a, v, 1) for a in args])
    l = applyn(key, f, [cof(a, v, 0) for a in args])
    r = mk_bdd_ite(v, h, l)
    if key is not None:
        _ap2[k] = r
    return r


_con = {}


_origin = {}


def constrain(f, c):
    """simplify f given that c holds; remembers what was simplified, for comparisons (see agree)."""
    r = _constrain(f, c)
    _origin[r] = (f, c)
    return r


def agree(a, b):
    """a and b were simplified under the same assumption and are equal wherever it holds.

    Simplification drops the assumption's variables where it can, so equal values may end up written differently."""
    x, y = _origin.get(a), _origin.get(b)
    if x is None or y is None or x[1] != y[1]:
        return False
    return ite(x[1], x[0], TRUE if isbool(x[0]) else ZERO) == ite(x[1], y[0], TRUE if isbool(y[0]) else ZERO)


def _cofactor(n, v, side):
    k = _nodes[n]
    if k[0] == 't' or k[1] > v:
        return n
    if k[1] == v:
        return k[2] if side else k[3]
    return mk_ite(k[1], _cofactor(k[2], v, side), _cofactor(k[3], v, side))


def _case(n, v, side, a, q, memo):
    """n where the test v has the given outcome, and hence the atom a is q; also inside tests."""
    r = memo.get(n)
    if r is not None:
        return r
    k = _nodes[n]
    if k[0] == 't':
        r = _subst(n, a, q)
    elif k[1] == v:
        r = _case(k[2] if side else k[3], v, side, a, q, memo)
    else:
        hi, lo = _case(k[2], v, side, a, q, memo), _case(k[3], v, side, a, q, memo)
        at = _atoms[k[1]]
        if at[0] in ('lt', 'eq') and a in _mentions(num(at[1])):
            x = _subst(num(at[1]), a, q)
            c = apply1('lt0', lambda y: _lt0(poly(y)), x) if at[0] == 'lt' else apply1('eq0', lambda y: _eq0(poly(y)), x)
            r = ite(c, hi, lo)
        else:
            r = ite(_mk(('ite', k[1], TRUE, FALSE)), hi, lo)
    memo[n] = r
    return r


def zero_by_cases(d, budget=None):
    """d is 0: decided by distinguishing, for each pos(q) in it, q < 0 (then it is 0) and the rest (then it is q)."""
    budget = [64] if budget is None else budget
    if vanishes(d):
        return True
    budget[0] -= 1
    ms = [a for a in _mentions(d) if not _mentions(_nodes[a][1][2][0]) and is_term(_nodes[a][1][2][0])]
    if not ms or budget[0] < 0:
        return False
    a = min(ms)
    q = poly(_nodes[a][1][2][0])
    v = var_of(('lt', q))
    return zero_by_cases(_case(d, v, 1, a, (), {}), budget) and zero_by_cases(_case(d, v, 0, a, q, {}), budget)


def _constrain(f, c):
    """simplify f given that c holds (restrict with existential quantification)."""
    if c == TRUE or c == FALSE or f == TRUE or f == FALSE:
        return f
    key = (f, c)
    r = _con.get(key)
    if r is not None:
        return r
    nf = _nodes[f]
    if nf[0] == 't':
        p = nf[1]
        if p[0] == 'agg':
            r = term(('agg', p[1], p[2], tuple((k, _constrain(v, c)) for k, v in p[3])))
        elif p[0] == 'upd':
            r = mk_upd(p[1], [(k, _constrain(v, c)) for k, v in p[2]])
        elif p[0] == 'flags':
            r = mk_flags(p[1], [(k, _constrain(v, c)) for k, v in p[2]])
        else:
            r = f
    else:
        nc = _nodes[c]
        if nc[0] != 'ite':
            r = f
        elif nc[1] < nf[1]:
            if nc[3] == FALSE:
                r = _constrain(f, nc[2])
            elif nc[2] == FALSE:
                r = _constrain(f, nc[3])
            else:
                r = _constrain(f, OR(nc[2], nc[3]))
        elif nc[1] == nf[1]:
            if nc[3] == FALSE:
                r = _constrain(nf[2], nc[2])
            elif nc[2] == FALSE:
                r = _constrain(nf[3], nc[3])
            else:
                r = mk_bdd_ite(nf[1], _constrain(nf[2], nc[2]), _constrain(nf[3], nc[3]))
        else:
            r = mk_bdd_ite(nf[1], _constrain(nf[2], c), _constrain(nf[3], c))
    _con[key] = r
    return r


# ---------------------------------------------------------------- arithmetic

def _num2(f):
    def g(a, b):
        return num(f(poly(a), poly(b)))
    return g


_add = _num2(lambda a, b: padd(a, b))
_sub = _num2(lambda a, b: padd(a, b, -1))
_mul = _num2(pmul)


def add(a, b):
    return apply2('add', _add, a, b)


def sub(a, b):
    return apply2('sub', _sub, a, b)


def mul(a, b):
    return apply2('mul', _mul, a, b)


def neg(a):
    return apply1('neg', lambda x: num(pscale(poly(x), -1)), a)


def div(a, b):
    return apply2('div', lambda x, y: num(pmul(poly(x), pinv(poly(y)))), a, b)


def app(name, *args):
    """opaque function application, leaf-wise."""
    return applyn(('app', name), lambda *xs: term(('app', name, tuple(xs))), list(args))


def numapp(name, *args):
    return applyn(('napp', name), lambda *xs: num(patom(term(('app', name, tuple(xs))))), list(args))


def sqrt(a):
    def f(x):
        p = poly(x)
        if pisconst(p):
            c = pcval(p)
            if c >= 0:
                import math
                c = Fraction(c)
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return const(Fraction(n, d))
        t = term(('app', 'sqrt', (num(p),)))
        _sqrt_arg[t] = p
        return num(patom(t))
    return apply1('sqrt', f, a)


def _canon(p):
    """scale to leading coefficient 1; returns (poly, sign)."""
    f = fp_poly(p)
    r = _canon_reg.get(f)
    if r is not None:
        return r
    lead = p[-1][1]
    q, s = pscale(p, _rdiv(1, lead)), (1 if lead > 0 else -1)
    fq = fp_poly(q)
    if fq in _canon_reg:
        q, s2 = _canon_reg[fq]
        s *= s2
    _canon_reg[f] = (q, s)
    _canon_reg[-f % PRIME] = (q, -s)
    _canon_reg[fq] = (q, 1) if fq not in _canon_reg else _canon_reg[fq]
    _canon_reg[-fq % PRIME] = (_canon_reg[fq][0], -_canon_reg[fq][1])
    return q, s


_canon_reg = {}


def _onepos(p):
    """(coefficient, q) when p is a multiple of pos(q)."""
    if len(p) == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1:
        a = payload(p[0][0][0][0])
        if a[0] == 'app' and a[1] == 'pos':
            return p[0][1], poly(a[2][0])
    return None


def _lt0(p):
    """boolean node for p < 0."""
    if pisconst(p):
        return TRUE if pcval(p) < 0 else FALSE
    m = _onepos(p)
    if m is not None:
        return FALSE if m[0] > 0 else _lt0(pscale(m[1], -1))
    q, s = _canon(p)
    lt = _mk(('ite', var_of(('lt', q)), TRUE, FALSE))
    if s > 0:
        return lt
    # -q < 0  <=>  q > 0  <=>  not lt and not eq
    eq = _mk(('ite', var_of(('eq', q)), TRUE, FALSE))
    return AND(NOT(lt), NOT(eq))


def _eq0(p):
    if pisconst(p):
        return TRUE if pcval(p) == 0 else FALSE
    m = _onepos(p)
    if m is not None:
        return NOT(_lt0(pscale(m[1], -1)))
    q, s = _canon(p)
    lt = _mk(('ite', var_of(('lt', q)), TRUE, FALSE))
    eq = _mk(('ite', var_of(('eq', q)), TRUE, FALSE))
    return AND(NOT(lt), eq)


def lt(a, b):
    return apply2('lt', lambda x, y: _lt0(padd(poly(x), poly(y), -1)), a, b)


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return NOT(gt(a, b))


def ge(a, b):
    return NOT(lt(a, b))


def _eqleaf(x, y):
    px, py = payload(x), payload(y)
    if px[0] == 'discr' and py[0] == 'num' and pisconst(py[1]):
        return discr_is(x, int(pcval(py[1])))
    if py[0] == 'discr' and px[0] == 'num' and pisconst(px[1]):
        return discr_is(y, int(pcval(px[1])))
    if px[0] == 'discr' and py[0] == 'discr' and px[2:] == py[2:]:
        if px[1] == py[1]:
            return TRUE
        r = FALSE
        for i in range(len(px[3])):
            r = OR(r, AND(is_variant(px[1], i, len(px[3])), is_variant(py[1], i, len(px[3]))))
        return r
    if px[0] in ('true', 'false') and py[0] in ('true', 'false'):
        return TRUE if px == py else FALSE
    return _eq0(padd(poly(x), poly(y), -1))


def eqnum(a, b):
    return apply2('eqn', _eqleaf, a, b)


def discr_is(t, val):
    # ('discr', raw, adt, discriminants)
    _, raw, adt, discs = payload(t)
    if val not in discs:
        return FALSE
    return is_variant(raw, discs.index(val), len(discs))


def absv(a):
    return ite(lt(a, ZERO), neg(a), a)


def maxv(a, b):
    return ite(gt(a, b), a, b)


def minv(a, b):
    return ite(lt(a, b), a, b)


# ---------------------------------------------------------------- enums / flags

_REBUILD.update(inv=lambda x: div(const(1), x), sqrt=sqrt, pos=lambda x: maxv(x, ZERO), cut=lambda x: x,
                sin=lambda x: numapp('sin', x), cos=lambda x: numapp('cos', x), tan=lambda x: numapp('tan', x))


def is_variant(e, i, n):
    """boolean node: enum terminal e has variant i of n."""
    if n <= 1:
        return TRUE
    r = TRUE
    for j in range(i):
        vj = _mk(('ite', var_of(('is', e, j)), TRUE, FALSE))
        r = AND(r, NOT(vj))
    if i < n - 1:
        r = AND(r, _mk(('ite', var_of(('is', e, i)), TRUE, FALSE)))
    return r


def flag_atom(base, bit):
    if base is None:
        return FALSE
    return _mk(('ite', var_of(('flag', base, bit)), TRUE, FALSE))


def mk_flags(base, bits):
    out = []
    for k, v in bits:
        if v == flag_atom(base, k):
            continue
        out.append((k, v))
    return term(('flags', base, tuple(sorted(out))))


# ---------------------------------------------------------------- pretty print

_budget = [None]


def show(n, depth=6):
    """readable text; cut off after a few thousand nodes so that reports stay cheap."""
    if _budget[0] is None:
        _budget[0] = 3000
        try:
            return _show(n, depth)
        finally:
            _budget[0] = None
    _budget[0] -= 1
    if _budget[0] < 0:
        return '…'
    return _show(n, depth)


def _show(n, depth):
    k = _nodes[n]
    if k[0] == 'ite':
        if n == TRUE:
            return 'true'
        if k[2] == TRUE and k[3] == FALSE:
            return showatom(k[1], depth)
        if k[2] == FALSE and k[3] == TRUE:
            return '!' + showatom(k[1], depth)
        if depth <= 0:
            return '…'
        if k[3] == FALSE:
            return '(%s & %s)' % (showatom(k[1], depth), show(k[2], depth - 1))
        if k[2] == FALSE:
            return '(!%s & %s)' % (showatom(k[1], depth), show(k[3], depth - 1))
        return '(%s ? %s : %s)' % (showatom(k[1], depth), show(k[2], depth - 1), show(k[3], depth - 1))
    p = k[1]
    if p[0] == 'true':
        return 'true'
    if p[0] == 'false':
        return 'false'
    if p[0] == 'num':
        return showpoly(p[1], depth)
    if p[0] == 'sym':
        return str(p[1])
    if p[0] == 'proj':
        return '%s.%s' % (show(p[1], depth), showkey(p[2], depth))
    if p[0] == 'ptr':
        return '&' + showloc(p[1], p[2], depth)
    if depth <= 0:
        return '…'
    if p[0] == 'agg':
        nm = str(p[1]).split('::')[-1]
        if p[2] is not None:
            nm += '::' + str(p[2])
        return '%s{%s}' % (nm, ', '.join('%s:%s' % (showkey(a, depth), show(b, depth - 1)) for a, b in p[3]))
    if p[0] == 'upd':
        return '%s{..%s}' % (show(p[1], depth), ', '.join('%s:%s' % (showkey(a, depth), show(b, depth - 1)) for a, b in p[2]))
    if p[0] == 'app':
        return '%s(%s)' % (p[1], ', '.join(show(a, depth - 1) if isinstance(a, int) else str(a) for a in p[2]))
    if p[0] == 'flags':
        return 'flags(%s%s)' % (show(p[1], depth) if p[1] is not None else '0', ''.join(' %s=%s' % (a, show(b, depth - 1)) for a, b in p[2]))
    return repr(p)


def showloc(root, path, depth=6):
    if root[0] == 'H':
        s = show(root[1], depth)
    else:
        s = '/'.join(str(x) for x in root)
    for k in path:
        s += '.' + showkey(k, depth)
    return s


def showkey(k, depth=6):
    if isinstance(k, tuple):
        if k[0] == 'i':
            return '[%s]' % show(k[1], depth)
        return '.'.join(str(x) for x in k)
    return str(k)


def showpoly(p, depth=6):
    if not p:
        return '0'
    out = []
    for m, c in p:
        s = '*'.join(show(a, depth) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    r = ' + '.join(out)
    return r if len(out) == 1 else '(' + r + ')'


def showatom(v, depth=6):
    a = _atoms[v]
    if a[0] == 'b':
        return show(a[1], depth)
    if a[0] == 'lt':
        return '[%s < 0]' % showpoly(a[1], depth)
    if a[0] == 'eq':
        return '[%s == 0]' % showpoly(a[1], depth)
    if a[0] == 'is':
        return '[%s is #%s]' % (show(a[1], depth), a[2])
    if a[0] == 'flag':
        return '[%s has %s]' % (show(a[1], depth), a[2])
    return repr(a)


def atom(v):
    return _atoms[v]


def support(n, acc=None, seen=None):
    """set of boolean variables a node depends on (also inside aggregates)."""
    if acc is None:
        acc, seen = set(), set()
    if n in seen:
        return acc
    seen.add(n)
    k = _nodes[n]
    if k[0] == 'ite':
        acc.add(k[1])
        support(k[2], acc, seen)
        support(k[3], acc, seen)
    else:
        p = k[1]
        if p[0] in ('agg',):
            for _, v in p[3]:
                support(v, acc, seen)
        elif p[0] in ('upd', 'flags'):
            for _, v in p[2]:
                support(v, acc, seen)
    return acc


def terminals(n):
    seen, st, out = set(), [n], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if is_term(x):
            out.append(x)
        else:
            _, v, hi, lo = _nodes[x]
            st += [lo, hi]
    return out


def leaves(n, cond=None):
    """[(condition, terminal)] of a decision diagram."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if is_term(x):
                r = {x: TRUE}
            else:
                _, v, hi, lo = _nodes[x]
                h, l = go(hi), go(lo)
                r = {}
                for t in list(h) + [t for t in l if t not in h]:
                    a, b = h.get(t, FALSE), l.get(t, FALSE)
                    r[t] = a if a == b else _mk(('ite', v, a, b))
            memo[x] = r
        return r
    out = go(n)
    if cond is not None and cond != TRUE:
        out = {t: AND(c, cond) for t, c in out.items()}
    return [(c, t) for t, c in out.items() if c != FALSE]


def size(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        k = _nodes[x]
        if k[0] == 'ite':
            st.append(k[2])
            st.append(k[3])
        elif k[1][0] == 'agg':
            st.extend(v for _, v in k[1][3])
        elif k[1][0] in ('upd', 'flags'):
            st.extend(v for _, v in k[1][2])
    return len(seen)
