"""Writing formulas to compare with value-numbering summaries."""
from . import expr as E
from .expr import term, payload, is_term, TRUE, FALSE, BOTTOM


class S:
    """a value node with operators (numbers and booleans)."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __add__(a, b): return S(E.add(a.n, nd(b)))
    def __radd__(a, b): return S(E.add(nd(b), a.n))
    def __sub__(a, b): return S(E.sub(a.n, nd(b)))
    def __rsub__(a, b): return S(E.sub(nd(b), a.n))

    def __mul__(a, b):
        if isinstance(b, V):
            return V(a * b.x, a * b.y)
        return S(E.mul(a.n, nd(b)))

    def __rmul__(a, b): return S(E.mul(nd(b), a.n))
    def __truediv__(a, b): return S(E.div(a.n, nd(b)))
    def __rtruediv__(a, b): return S(E.div(nd(b), a.n))
    def __neg__(a): return S(E.neg(a.n))
    def __lt__(a, b): return S(E.lt(a.n, nd(b)))
    def __gt__(a, b): return S(E.gt(a.n, nd(b)))
    def __le__(a, b): return S(E.le(a.n, nd(b)))
    def __ge__(a, b): return S(E.ge(a.n, nd(b)))
    def __and__(a, b): return S(E.AND(a.n, nd(b)))
    def __or__(a, b): return S(E.OR(a.n, nd(b)))
    def __xor__(a, b): return S(E.XOR(a.n, nd(b)))
    def __invert__(a): return S(E.NOT(a.n))
    def eq(a, b): return S(E.eqnum(a.n, nd(b)))
    def __repr__(a): return E.show(a.n)


def nd(x):
    if isinstance(x, S):
        return x.n
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float)) or hasattr(x, 'numerator'):
        from fractions import Fraction
        return E.const(Fraction(str(x)) if isinstance(x, float) else Fraction(x))
    raise TypeError(x)


def k(x):
    return S(nd(x))


def f32(x):
    """the node the engine uses for an f32 constant of this value."""
    import struct
    y = struct.unpack('f', struct.pack('f', x))[0]
    for n in range(1, 17):
        t = '%.*g' % (n, y)
        if struct.unpack('f', struct.pack('f', float(t)))[0] == y:
            break
    from fractions import Fraction
    f = Fraction(t)
    if f != 0:
        g = f.limit_denominator(10000)
        if g != f and abs(g - f) <= abs(f) * Fraction(12, 100000000):
            f = g
    return S(E.const(f))


class V:
    """2-vector."""
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x if isinstance(x, S) else k(x), y if isinstance(y, S) else k(y)

    def __add__(a, b): return V(a.x + b.x, a.y + b.y)
    def __sub__(a, b): return V(a.x - b.x, a.y - b.y)
    def __neg__(a): return V(-a.x, -a.y)
    def __rmul__(a, s): return V(s * a.x, s * a.y)
    def __mul__(a, s): return V(a.x * s, a.y * s)
    def __repr__(a): return '(%r, %r)' % (a.x, a.y)


def dot(a, b): return a.x * b.x + a.y * b.y
def cross(a, b): return a.x * b.y - a.y * b.x
def crossvs(a, s): return V(s * a.y, -(s * a.x))
def crosssv(s, a): return V(-(s * a.y), s * a.x)
def ite(c, a, b):
    if isinstance(a, V):
        return V(ite(c, a.x, b.x), ite(c, a.y, b.y))
    return S(E.ite(c.n, nd(a), nd(b)))
def smax(a, b): return S(E.maxv(nd(a), nd(b)))
def smin(a, b): return S(E.minv(nd(a), nd(b)))
def sabs(a): return S(E.absv(nd(a)))
def clamp(a, lo, hi): return smax(lo, smin(a, hi))
def sqrt(a): return S(E.sqrt(nd(a)))
def length(v): return sqrt(dot(v, v))
def fn(name, *a): return S(E.numapp(name, *[nd(x) for x in a]))


class Q:
    """rotation."""
    __slots__ = ('s', 'c')

    def __init__(self, s, c):
        self.s, self.c = s, c


def rot(angle): return Q(fn('sin', angle), fn('cos', angle))
def mulq(q, v): return V(q.c * v.x - q.s * v.y, q.s * v.x + q.c * v.y)
def mulqT(q, v): return V(q.c * v.x + q.s * v.y, q.c * v.y - q.s * v.x)


class X:
    """rigid transform."""
    __slots__ = ('p', 'q')

    def __init__(self, p, q):
        self.p, self.q = p, q


def mulx(x, v): return mulq(x.q, v) + x.p
def mulxT(x, v): return mulqT(x.q, v - x.p)
def qmul(a, b): return Q(a.s * b.c + a.c * b.s, a.c * b.c - a.s * b.s)
def qmulT(a, b): return Q(a.c * b.s - a.s * b.c, a.c * b.c + a.s * b.s)


class Obj:
    """symbolic handle on an opaque input value; attributes are projections."""

    def __init__(self, n):
        self.n = n

    def at(self, *keys):
        n = self.n
        for key in keys:
            n = term(('proj', n, key))
        return Obj(n)

    def num(self, *keys):
        return S(E.num(E.patom(self.at(*keys).n)))

    def bool(self, *keys):
        return S(E.boolsym(self.at(*keys).n))

    def vec(self, *keys):
        o = self.at(*keys)
        return V(o.num('x'), o.num('y'))

    def rot(self, *keys):
        o = self.at(*keys)
        return Q(o.num('s'), o.num('c'))

    def xf(self, *keys):
        o = self.at(*keys)
        return X(o.vec('p'), o.rot('q'))

    def flag(self, bit, *keys):
        return S(E.flag_atom(self.at(*keys).n, bit))

    def ptr(self, *keys):
        return term(('ptr', ('H', self.at(*keys).n), ()))

    def is_(self, variant, count, *keys):
        return S(E.is_variant(self.at(*keys).n, variant, count))


def sym(*name):
    return Obj(term(('sym', name if len(name) > 1 else name[0])))


# ------------------------------------------------------------------ summaries of effects on memory

def changes(res, mem=None, roots=('H',)):
    """{access path string: node} of everything reachable from the inputs that differs from its initial value."""
    out = {}
    m = res.st.mem if mem is None else mem
    for root, v in m.items():
        if root[0] not in roots:
            continue
        if root[0] == 'H':
            flatten(root[1], v, E.show(root[1]), out)
        else:
            flatten(None, v, '/'.join(str(x) for x in root), out)
    return out


def is_initial(base, v):
    if base is None:
        return False
    if v == base:
        return True
    if not is_term(v):
        return v == E.boolsym(base)
    p = payload(v)
    if p[0] == 'num':
        return p[1] == E.patom(base)
    if p[0] == 'ptr':
        return p[1] == ('H', base) and p[2] == ()
    if p[0] == 'flags':
        return p[1] == base and not p[2]
    return False


def flatten(base, v, prefix, out):
    if is_initial(base, v):
        return
    if is_term(v):
        p = payload(v)
        if p[0] == 'upd':
            same = base is not None and p[1] == base
            if same:
                for key, x in p[2]:
                    flatten(term(('proj', base, key)), x, prefix + '.' + E.showkey(key), out)
                return
            for key, x in p[2]:
                flatten(None, x, prefix + '.' + E.showkey(key), out)
            out[prefix + '.*'] = p[1]
            return
        if p[0] == 'agg' and p[2] is None and p[3] and p[1] != 'vec' and not isinstance(p[1], tuple):
            for key, x in p[3]:
                flatten(term(('proj', base, key)) if base is not None else None, x, prefix + '.' + E.showkey(key), out)
            return
        if p[0] == 'flags' and p[1] == base and base is not None:
            for bit, x in p[2]:
                out['%s#%d' % (prefix, bit)] = x
            return
        if p[0] == 'flags' and p[1] is None:
            for bit, x in p[2]:
                out['%s#%d' % (prefix, bit)] = x
            out[prefix + '#rest'] = FALSE
            return
    else:
        # piecewise flag word: split into bits
        def fl(t):
            q = payload(t)
            return (q[1], dict(q[2])) if q[0] == 'flags' else (t, {}) if t == base else None
        flags = any(payload(t)[0] == 'flags' for t in E.terminals(v))
        ls = [(cnd, fl(t)) for cnd, t in E.leaves(v)] if flags else []
        if flags and all(x is not None for _, x in ls) and len({x[0] for _, x in ls}) == 1:
            b0 = ls[0][1][0]
            for b in {b for _, x in ls for b in x[1]}:
                r = None
                for cnd, x in ls:
                    y = x[1].get(b, E.flag_atom(b0, b))
                    r = y if r is None else E.ite(cnd, y, r)
                if r != E.flag_atom(b0, b):
                    out['%s#%d' % (prefix, b)] = r
            if b0 is None or b0 != base:
                out[prefix + '#rest'] = FALSE if b0 is None else b0
            return
    out[prefix] = v


def same(v, want):
    """value node equals spec node (raw values are viewed like the spec)."""
    w = want.n if isinstance(want, (S, Obj)) else want
    if v == w:
        return True
    try:
        if E.agree(v, w):
            return True
    except Exception:
        pass

    def f(x):
        p = payload(x)
        if p[0] in ('sym', 'proj', 'app') and x != BOTTOM:
            return E.like(x, w)
        return x
    try:
        v2 = f(v) if is_term(v) else _lw(v, f)
    except Exception:
        return False
    if v2 == w:
        return True
    # equal wherever reached: they differ only by multiples of quantities known to be 0 there
    try:
        d = E.sub(v2, w)
        return E.vanishes(d) or E.zero_by_cases(d)
    except Exception:
        return False


def _lw(n, f):
    if is_term(n):
        return f(n)
    _, v, hi, lo = E.node(n)
    return E.mk_bdd_ite(v, _lw(hi, f), _lw(lo, f))


def expand(prefix, want, out):
    """turn a structured spec value into leaf paths."""
    if isinstance(want, V):
        out[prefix + '.x'], out[prefix + '.y'] = want.x, want.y
    elif isinstance(want, Q):
        out[prefix + '.s'], out[prefix + '.c'] = want.s, want.c
    elif isinstance(want, X):
        expand(prefix + '.p', want.p, out)
        expand(prefix + '.q', want.q, out)
    elif isinstance(want, dict):
        for kk, x in want.items():
            expand(prefix + '.' + kk, x, out)
    else:
        out[prefix] = want


def expect_changes(c, rule, construct, res, want, under=None, ignore=(), got=None):
    """the function changes exactly the locations in `want`, to exactly these values.

    under: optional assumption (S); values are compared after constraining by it."""
    if under is not None and under.n == FALSE:
        c.ob(rule, construct + ' can succeed', False, 'the operation always fails')
    got = changes(res) if got is None else dict(got)
    w = {}
    for kk, x in want.items():
        if isinstance(kk, Obj):
            name = E.show(kk.n, 99)
            sub = {}
            expand('', x, sub)
            for p_, y in sub.items():
                w[name + p_] = y
                INIT[name + p_] = kk.at(*[z for z in p_.split('.') if z]).n
        else:
            expand(kk, x, w)
    assume = under.n if under is not None else None
    # whole-value writes of opaque structs: view them through the components the specification names
    for g in sorted(got):
        pre = g[:-2] if g.endswith('.*') else g
        subs = [kk for kk in w if kk.startswith(pre + '.') and kk not in got and '#' not in kk]
        if g.endswith('.*') and pre + '.x' in got and pre + '.y' in got and {kk for kk in w if kk.startswith(pre + '.')} == {pre + '.x', pre + '.y'}:
            got.pop(g)      # a vector copied whole, then seen through both its components
            continue
        if subs and g not in w:
            v = got.pop(g)
            for kk in subs:
                got[kk] = project(res, v, kk[len(pre) + 1:].split('.'), w[kk])

    def con(n):
        return E.constrain(n, assume) if assume is not None else n
    for kk in sorted(set(got) | set(w)):
        if any(kk == i or kk.startswith(i + '.') or kk.startswith(i + '#') for i in ignore):
            continue
        if kk in got and kk in w:
            a, b = con(got[kk]), con(nd(w[kk]) if not isinstance(w[kk], (S, Obj)) else w[kk].n)
            ok = same(a, b)
            c.ob(rule, construct + ' ' + kk, ok, '' if ok else 'code computes vs expected: ' + show_difference(a, b, 4))
        elif kk in got:
            # written, but possibly only with its own initial value
            init = initial_of(kk, got[kk])
            ok = init is not None and same(con(got[kk]), con(init))
            c.ob(rule, construct + ' ' + kk, ok, 'unexpected change to %s' % E.show(con(got[kk]), 5))
        else:
            b = con(nd(w[kk]) if not isinstance(w[kk], (S, Obj)) else w[kk].n)
            init = parse_path(kk, b)
            ok = init is not None and con(init) == b
            c.ob(rule, construct + ' ' + kk, ok, 'expected %s, code leaves it unchanged' % E.show(b, 5))


def project(res, v, keys, want):
    w = want.n if isinstance(want, (S, Obj)) else nd(want)

    def f(x):
        for key in keys:
            x = res.eng.field(x, key)
        return E.like(x, w) if is_term(x) and payload(x)[0] in ('sym', 'proj', 'app') and x != BOTTOM else x
    return f(v) if is_term(v) else _lw(v, f)


INIT = {}


def parse_path(path, likev):
    if path in INIT:
        return E.like(INIT[path], likev)
    """initial-value node for a printed access path (roots that are plain symbols)."""
    bit = None
    if '#' in path:
        path, bit = path.split('#')
    parts = path.split('.')
    n = term(('sym', parts[0]))
    for p in parts[1:]:
        n = term(('proj', n, p))
    if bit is not None:
        return E.flag_atom(n, int(bit)) if bit != 'rest' else None
    return E.like(n, likev)


def initial_of(path, v):
    try:
        return parse_path(path, v)
    except Exception:
        return None


def summarise(c, P, path, args=None, **kw):
    """run the dataflow on one function and record what was analysed."""
    from .engine import Engine
    from .check import AnchorMissing
    st = kw.pop('state', None)
    sub = kw.pop('sub', None)
    names = kw.pop('names', None)
    hooks = kw.pop('hooks', None)
    e = Engine(P, **kw)
    e.hooks.update(hooks or {})
    f = find_fn(P, path)
    r = e.analyse(f, args=args, sub=sub, names=names, state=st)
    c.saw(f['uid'], e.inlined)
    c.count('blocks', e.stats['blocks'])
    c.count('joins', e.stats['joins'])
    c.count('calls', e.stats['calls'])
    if e.unmodelled:
        c.counts.setdefault('unmodelled', [])
        c.counts['unmodelled'] = sorted(set(c.counts['unmodelled']) | e.unmodelled)
    return r


def find_fn(P, path):
    from .check import AnchorMissing
    if isinstance(path, dict):
        return path
    c = [f for f in P.fns.values() if f['path'] == path]
    if not c:
        c = P.find(path)
    if len(c) != 1:
        raise AnchorMissing('function %s (%d candidates: %s)' % (path, len(c), [x['path'] for x in c][:4]))
    return c[0]


# ------------------------------------------------------------------ modelling a callee as a pure function of its arguments

def pure(name, outs=None, ret=None):
    """hook: the callee is replaced by uninterpreted functions of its non-output arguments.

    outs: {argument index: {field path: 'num'|'vec'|'bool'}} stored through output pointers; ret: 'num'|'bool'|'vec'|'raw'|'unit'"""
    outs = outs or {}

    def val(e, kind, tag, ins):
        if kind == 'vec':
            return term(('agg', 'b2_math::B2vec2', None, (('x', E.numapp(tag + '.x', *ins)), ('y', E.numapp(tag + '.y', *ins)))))
        if kind == 'num':
            return E.numapp(tag, *ins)
        if kind == 'bool':
            return E.boolsym(E.app(tag, *ins))
        return E.app(tag, *ins)

    def h(e, fr, st, args, tys, dt, line, fop):
        from .engine import Effect
        ins = [a for i, a in enumerate(args) if i not in outs]
        e.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=list(args), ret=None, mem=dict(st.mem), argtys=tys, info={'pure': True}))
        for i, fs in outs.items():
            for f, kind in fs.items():
                ptr = args[i]
                for key in f.split('.') if f else ():
                    ptr = e.extend(ptr, key)
                e.store(st, ptr, val(e, kind, '%s.%s' % (name, f) if f else name, ins), fr, line)
        if ret is None or ret == 'unit':
            from .engine import UNIT
            return UNIT
        return e.coerce(val(e, ret, name, ins), dt)
    return h


def pure_num(tag, *ins):
    return S(E.numapp(tag, *ins))


def pure_vec(tag, *ins):
    return V(S(E.numapp(tag + '.x', *ins)), S(E.numapp(tag + '.y', *ins)))


class Loop:
    """role-based view of a loop summary: which state is a list cursor, a counter, an accumulator."""

    def __init__(self, eff):
        self.e = eff
        self.mus = eff.info['mus']
        self.guard = eff.guard
        self.sub = eff.sub
        self.exits = [pc for _, pc in eff.info['exits']]

    def cursors(self, link='m_next'):
        """[(symbol node, initial value node, element Obj)] of linked-list traversals."""
        out = []
        for key, (i, s, n) in self.mus.items():
            if n is None:
                continue
            el = term(('proj', term(('proj', s, ('d', 'Some'))), '0'))
            nxt = term(('proj', el, link))
            for cnd, t in E.leaves(n):
                if t == nxt:
                    out.append((s, i, Obj(el)))
                    break
        return out

    def counters(self):
        """[(S counter, S initial, S step)]"""
        out = []
        for key, (i, s, n) in self.mus.items():
            if n is None or not E.isnum(s):
                continue
            d = E.sub(n, s)
            if is_term(d) and payload(d)[0] == 'num' and E.pisconst(payload(d)[1]):
                out.append((S(s), S(i), S(d)))
        return out

    def find(self, delta=None, init=None, next=None, under=None):
        """state variables updated as described; returns [S]."""
        out = []
        for key, (i, s, n) in self.mus.items():
            if n is None:
                continue
            con = (lambda x: E.constrain(x, under.n)) if under is not None else (lambda x: x)
            if delta is not None:
                try:
                    if not E.isnum(s):
                        continue
                    ok = con(E.sub(n, s)) == con(nd(delta))
                except Exception:
                    continue
                if not ok:
                    continue
            if next is not None and con(n) != con(nd(next(S(s)))):
                continue
            if init is not None and not same(i, init):
                continue
            out.append(S(s))
        return out


class Each(Loop):
    """a loop that visits the elements 0 .. n-1 of a sequence once each, in order."""

    def __init__(self, c, rule, name, loop, n, res=None):
        self.e, self.mus, self.guard, self.sub, self.exits = loop.e, loop.mus, loop.guard, loop.sub, loop.exits
        self.c, self.rule, self.name, self.res = c, rule, name, res
        self.back = self.e.info['back_pc']
        self.i = None
        for key, (i, s, nx) in self.mus.items():
            if nx is None or not E.isnum(s) or not same(i, k(0)):
                continue
            if same(E.constrain(nx, self.back), S(s) + 1):
                stay = S(s) < n
                if all(E.AND(x, stay.n) == FALSE for x in self.exits):
                    self.i = S(s)
                    break
        c.ob(rule, name + ' visits every element once, in order', self.i is not None, 'no counter runs from 0 to the length: %s' % [(E.show(i, 3), E.show(nx, 3)) for i, s, nx in self.mus.values() if nx is not None and E.isnum(s)][:4])
        self.ok = self.i is not None

    def raw(self, s):
        return payload(s)[1] if is_term(s) and payload(s)[0] == 'upd' else s

    def cur(self, obj):
        """the object at the start of an iteration."""
        for (root, path), (i, s, nx) in self.mus.items():
            if root[0] != 'H':
                continue
            n = root[1]
            for key in path:
                n = term(('proj', n, key))
            if n == obj.n:
                return Obj(self.raw(s))
        return obj

    def got(self):
        out = {}
        for (root, path), (i, s, nx) in self.mus.items():
            if root[0] == 'H' and nx is not None:
                b = self.raw(s)
                flatten(b, nx, E.show(b), out)
                out.pop(E.show(b) + '.len', None)
        # objects named through the iteration itself (a different object each time round)
        seen = {root for root, _ in self.mus}
        for root, v in self.e.info['back_mem'].items():
            if root[0] == 'H' and root not in seen:
                flatten(root[1], v, E.show(root[1]), out)
        return out

    def local(self, *path):
        """loop-carried local with this access path: (initial value, symbol, next value)."""
        for (root, p), x in self.mus.items():
            if root[0] != 'H' and p == path:
                return x
        return None

    def frame(self, res):
        """nothing outside the loop changes anything: state enters the loop untouched and leaves it untouched."""
        syms = {}
        for (root, path), (i, s, nx) in self.mus.items():
            if root[0] == 'H':
                n = root[1]
                for key in path:
                    n = term(('proj', n, key))
                syms[E.show(n)] = s
                self.c.ob(self.rule, '%s %s before the loop' % (self.name, E.show(n)), is_initial(n, i), 'changed before the loop: %s' % E.show(i, 4))
        for kk, v in changes(res).items():
            kk = kk[:-2] if kk.endswith('.*') else kk
            s = syms.get(kk)
            if s is None and kk.endswith('.len'):
                continue
            self.c.ob(self.rule, '%s %s after the loop' % (self.name, kk), s is not None and v in (s, self.raw(s)), 'changed outside the loop: %s' % E.show(v, 4))

    def expect(self, want, ignore=(), under=None):
        u = S(self.back) if under is None else S(self.back) & under
        expect_changes(self.c, self.rule, self.name, self.res, want, under=u, ignore=ignore, got=self.got())


def loops(res, deep=False):
    out = []

    def go(es):
        for x in es:
            if x.kind == 'loop':
                out.append(Loop(x))
                if deep:
                    go(x.sub)
    go(res.effects)
    return out


def panics(res):
    """S: condition under which the function panics."""
    r = FALSE
    for x, stack in res.flat(kinds=('panic',)):
        r = E.OR(r, x.guard)
    return S(r)


def no_panic(c, rule, construct, res, allowed=None):
    p = panics(res)
    bad = p if allowed is None else p & ~allowed
    c.ob(rule, construct + ' panic-free', bad.n == FALSE, 'may panic when %s (%s)' % (E.show(bad.n, 5), [str(x) for x, _ in res.flat(kinds=('panic',))][:3] if bad.n != FALSE else ''))


def difference(a, b):
    """a path (list of (atom, side)) on which two nodes end in different terminals, with those terminals."""
    if a == b:
        return None
    path = []
    while not (is_term(a) and is_term(b)):
        v = E.top(a, b)
        for side in (1, 0):
            x, y = E.cof(a, v, side), E.cof(b, v, side)
            if x != y:
                path.append((v, side))
                a, b = x, y
                break
        else:
            return None
    return path, a, b


def show_difference(a, b, depth=3, width=160):
    d = difference(a, b)
    if d is None:
        return 'none'
    lits = ['%s%s' % ('' if s else 'not ', E.showatom(v, depth)[:width]) for v, s in d[0]]
    return 'when {%s}: %s vs %s' % ('; '.join(lits), E.show(d[1], depth)[:4 * width], E.show(d[2], depth)[:4 * width])


def method(c, rule, P, path, names, ret=None, want=None, panic=None, under=None, label=None, **kw):
    """complete specification of one function: returned value, state changes (nothing else) and panic condition.

    ret: structured spec value (or None: result not specified here); want: {path: value}; panic: condition (S) under which
    it may panic (values are then compared where it does not), None = never."""
    label = label or path.split('::')[-1]
    r = summarise(c, P, path, names=names, **kw)
    no_panic(c, rule, label, r, panic)
    u = under
    if panic is not None:
        p = ~panics(r)
        u = p if u is None else u & p
    expect_changes(c, rule, label, r, want or {}, under=u)
    if ret is not None:
        w = {}
        expand('', ret, w)
        for p_, x in w.items():
            got = r.value(r.ret, tuple(q for q in p_.split('.') if q))
            xn = x.n if isinstance(x, (S, Obj)) else nd(x)
            if u is not None:
                got, xn = E.constrain(got, u.n), E.constrain(xn, u.n)
            ok = same(got, xn)
            c.ob(rule, label + ' result' + p_, ok, '' if ok else 'code returns vs expected: ' + show_difference(got, xn, 4))
    return r


def nolen(n):
    def f(x):
        p = payload(x)
        if p[0] == 'upd' and any(kk == 'len' for kk, _ in p[2]):
            rest = [z for z in p[2] if z[0] != 'len']
            return E.mk_upd(p[1], rest) if rest else p[1]
        return x
    return _lw(n, f)


def unchanged(base, v):
    """v is the initial content of base, possibly taken apart."""
    if is_initial(base, v):
        return True
    p = payload(v) if is_term(v) else ('',)
    if p[0] == 'upd' and p[1] == base:
        return all(kk == 'len' or unchanged(term(('proj', base, kk)), y) for kk, y in p[2])
    if p[0] == 'agg' and p[2] is None:
        return all(unchanged(term(('proj', base, kk)), y) for kk, y in p[3])
    return False


def _elements(res, n, base, want, back):
    """n is the array `base` with exactly the elements in `want` ({index: structured value}) replaced."""
    out = []
    idxs = {('i', nd(x)) for x in want}

    def f(x):
        p = payload(x)
        if p[0] == 'upd' and p[1] == base.n:
            for kk, y in p[2]:
                if kk != 'len' and kk not in idxs and not unchanged(term(('proj', base.n, kk)), E.constrain(y, back.n)):
                    out.append('changes element %s' % E.show(kk[1], 3) if isinstance(kk, tuple) else 'changes %s' % (kk,))
        elif x != base.n:
            out.append('is replaced by %s' % E.show(x, 2)[:100])
        return x
    _lw(n, f)
    for i, x in want.items():
        fl = {}
        expand('', x, fl)
        for p_, y in fl.items():
            g = res.eng.field(n, ('i', nd(i)))
            for kk in p_.split('.'):
                if kk:
                    g = res.eng.field(g, kk)
            g, y = E.constrain(g, back.n), E.constrain(y.n if isinstance(y, (S, Obj)) else nd(y), back.n)
            if not same(g, y):
                out.append('element%s, code vs expected: %s' % (p_, show_difference(g, y, 4)))
    return out


class Mismatch(Exception):
    pass


def match_loop(loop, inits, step, cond=None, res=None, keep=(), room=None):
    """find the loop-carried variables playing the roles named in `inits` ({role: initial value}).

    step(roles) -> {role: value after one iteration}; cond(roles) -> another iteration happens.
    Returns (roles, problems): roles maps each role to its symbol (S for scalars, Obj otherwise)."""
    import itertools
    back = S(loop.e.info['back_pc'])
    mus = [(kk, x) for kk, x in loop.mus.items() if x[2] is not None]
    names = list(inits)
    cands = []
    for r in names:
        w = inits[r]
        cs = [(kk, x) for kk, x in mus if same(x[0], w)]
        if not cs:
            return None, ['no loop variable starts at %s (%s); there are %s' % (E.show(nd(w) if not isinstance(w, Obj) else w.n, 3)[:80], r, [E.show(x[0], 2)[:40] for _, x in mus][:8])]
        cands.append(cs)
    best = None
    for combo in itertools.islice(itertools.product(*cands), 200):
        if len({kk for kk, _ in combo}) != len(combo):
            continue
        roles = {}
        for r, (kk, (i, s, n)) in zip(names, combo):
            roles[r] = S(s) if E.isnum(s) or E.isbool(s) else Obj(payload(s)[1] if is_term(s) and payload(s)[0] == 'upd' else s)
        probs = []
        try:
            nxt = step(roles)
            for r, (kk, (i, s, n)) in zip(names, combo):
                if r not in nxt:
                    continue
                w = nxt[r]
                if isinstance(w, dict):
                    probs += ['%s %s' % (r, x) for x in _elements(res, E.constrain(n, back.n), roles[r], w, back)]
                    continue
                wn = w.n if isinstance(w, (S, Obj)) else nd(w)
                a, b = E.constrain(n, back.n), E.constrain(wn, back.n)
                if isinstance(roles[r], Obj):
                    a, b = nolen(a), nolen(b)
                if not same(a, b):
                    probs.append('%s after an iteration, code vs expected: %s' % (r, show_difference(a, b, 4)))
                    if best is not None and len(probs) >= len(best[1]):
                        break
            if cond is not None and (best is None or len(probs) < len(best[1])):
                cd = cond(roles)
                if (back & ~cd).n != FALSE:
                    probs.append('repeats although it should stop: ' + E.show((back & ~cd).n, 4)[:300])
                ex = FALSE
                for x in loop.exits:
                    ex = E.OR(ex, x)
                if room is not None:
                    ex = E.AND(ex, room(roles).n)
                if E.AND(ex, cd.n) != FALSE:
                    probs.append('stops although it should repeat: ' + E.show(E.AND(ex, cd.n), 4)[:300])
        except Mismatch as m:
            probs.append(str(m))
        if best is None or len(probs) < len(best[1]):
            best = (roles, probs)
            if not probs:
                break
    if best is None:
        return None, ['the loop does not carry enough variables']
    return best


def restrict(loop, under):
    """the same loop, looked at only where `under` holds."""
    class View(object):
        pass
    lp, e = View(), View()
    lp.__dict__.update(loop.__dict__)
    e.__dict__.update(getattr(loop.e, '__dict__', {}))
    lp.mus = {kk: tuple(None if y is None else (y if j == 1 else E.constrain(y, under.n)) for j, y in enumerate(x)) for kk, x in loop.mus.items()}
    e.info = dict(loop.e.info)
    e.info['back_pc'] = E.AND(e.info['back_pc'], under.n)
    lp.e = e
    lp.exits = [E.AND(x, under.n) for x in loop.exits]
    return lp


def expect_loop(c, rule, name, loop, inits, step, cond=None, res=None, room=None):
    """room(roles): what always holds while the loop runs (elements exist); stopping otherwise is no difference."""
    roles, probs = match_loop(loop, inits, step, cond, res, room=room)
    c.ob(rule, name, not probs, '; '.join(probs)[:1500])
    return roles if not probs else None


def inner_loop(loop, inits, step, cond=None, n=None, at=0):
    """used inside a step function: the nested loop plays this part (Mismatch otherwise)."""
    subs = [Loop(x) for x in loop.sub if x.kind == 'loop']
    if n is not None and len(subs) != n:
        raise Mismatch('%d nested loops instead of %d' % (len(subs), n))
    if at >= len(subs):
        raise Mismatch('nested loop missing')
    roles, probs = match_loop(subs[at], inits, step, cond)
    if probs:
        raise Mismatch('nested loop: ' + '; '.join(probs))
    return roles
