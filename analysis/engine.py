"""Gated value-numbering dataflow over MIR.

One forward pass in reverse post-order with a join at every merge point: values are
canonical decision diagrams (expr.py), memory is a map from object roots to functional
update values, path predicates are decision diagrams over the branch conditions.
Nothing is executed and no path is enumerated; loops are abstracted by opaque
loop-carried symbols and one transfer function for their body.
"""
import time
from fractions import Fraction

from . import expr as E
from .expr import TRUE, FALSE, BOTTOM, AND, OR, NOT, ite, term, payload, is_term
from .program import PTR_ADTS, CELL_ADTS, canon_path

UNIT = term(('agg', '()', None, ()))


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Mods(frozenset):
    """(type, field) pairs a callee may write; .reach = cell contents it can get at (None: anything)."""
    reach = None


class State:
    __slots__ = ('mem', 'pc', 'assume', 'hv')

    def __init__(self, mem=None, pc=TRUE, assume=TRUE, hv=()):
        self.mem = {} if mem is None else mem
        self.pc = pc
        self.assume = assume
        self.hv = hv

    def copy(self):
        return State(dict(self.mem), self.pc, self.assume, self.hv)


class Effect:
    __slots__ = ('kind', 'guard', 'fn', 'line', 'name', 'args', 'ret', 'mem', 'sub', 'info', 'loc', 'value', 'argtys')

    def __init__(self, kind, guard, fn, line, **kw):
        self.kind, self.guard, self.fn, self.line = kind, guard, fn, line
        self.name = self.args = self.ret = self.mem = self.sub = self.info = self.loc = self.value = self.argtys = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        s = '%s@%s:%s [%s]' % (self.kind, self.fn.split('::')[-1], self.line, E.show(self.guard, 4))
        if self.kind == 'call':
            s += ' %s(%s)' % (self.name, ', '.join(E.show(a, 3) for a in self.args))
        elif self.kind == 'write':
            s += ' %s := %s' % (E.showloc(*self.loc), E.show(self.value, 5))
        elif self.kind == 'panic':
            s += ' ' + str(self.name)
        elif self.kind == 'loop':
            s += ' loop#%s (%d effects)' % (self.info['no'], len(self.sub))
        return s


class Frame:
    __slots__ = ('id', 'fn', 'body', 'sub', 'cfg', 'path', 'depth')


def rootsort(r):
    return repr(r)


class Engine:
    def __init__(self, prog, opaque=None, inline=None, distinct=True, max_depth=25, time_limit=240, log_writes=True, alias=None, unroll=0, fix=None):
        self.P = prog
        self.unroll = unroll        # loops whose trip count is decided within this bound are unrolled exactly
        self.fixtail = {kk.split('.')[-1] for kk in fix or {} if '.' in kk}   # (keys with dots name one particular input)
        self.fix = dict(fix or {})  # analysis specialised to inputs in which these fields have a given constant value
        self.opaque = opaque or (lambda path, uid: False)
        self.distinct = distinct
        self.max_depth = max_depth
        self.nframes = 0
        self.ncalls = {}
        self.nloops = 0
        self.nalloc = 0
        self.effects = []
        self.stack = []
        self.root_types = {}
        self.t0 = time.time()
        self.time_limit = time_limit
        self.log_writes = log_writes
        self.warnings = []
        self.inlined = set()
        self.opaqued = set()
        self.unmodelled = set()
        self.alias = alias          # optional rewriting of heap roots: f(symnode) -> node (pointer) or None
        self.stats = {'blocks': 0, 'joins': 0, 'calls': 0}
        from . import models
        self.models = models.MODELS
        self.hooks = {}
        self.loop_ctx = 0

    # ------------------------------------------------------------------ typed views
    def wrap(self, sym, t):
        """typed view of an opaque terminal."""
        P = self.P
        if t is None:
            return sym
        t = P.peel(t)
        d = P.types[t]
        k = d['k']
        if k == 'prim':
            s = d['s']
            if s == 'bool':
                return E.boolsym(sym)
            if s in ('str', '!'):
                return sym
            return E.num(E.patom(sym))
        if k in ('ref', 'ptr', 'fnptr'):
            return self.mkptr(sym)
        if k == 'adt':
            if d['p'] in PTR_ADTS:
                return self.mkptr(sym)
            if d['p'] in P.bitflag_adts:
                return term(('flags', sym, ()))
            return sym
        if k == 'tuple' and not d['a']:
            return UNIT
        return sym

    def mkptr(self, sym):
        if self.alias is not None:
            r = self.alias(sym)
            if r is not None:
                return r
        return term(('ptr', ('H', sym), ()))

    RAW = ('sym', 'proj', 'app')

    def coerce(self, v, t):
        if t is None:
            return v

        def f(x):
            p = payload(x)
            if p[0] in self.RAW and x != BOTTOM:
                return self.wrap(x, t)
            return x
        return E.apply1(('co', id(self.P), self.P.peel(t), id(self) if self.alias else 0), f, v)

    def sym(self, *name):
        return term(('sym', name if len(name) > 1 else name[0]))

    # ------------------------------------------------------------------ structured values
    def field(self, v, key):
        if isinstance(key, tuple) and key and key[0] == 'i':
            return self.index(v, key[1])
        if key in self.fix:
            return E.apply1(('fld', key, self.fix[key]), lambda x: self._fixed(x, key), v)
        if key in self.fixtail:
            return self._leafwise(v, lambda x: self._fixedpath(x, key))
        return E.apply1(('fld', key), lambda x: self._field(x, key), v)

    def _fixed(self, x, key):
        r = self._field(x, key)
        return self.fix[key] if is_term(r) and payload(r)[0] == 'proj' and payload(r)[2] == key else r

    def _fixedpath(self, x, key):
        r = self._field(x, key)
        if is_term(r) and payload(r)[0] == 'proj' and payload(r)[2] == key:
            return self.fix.get(E.show(r), r)
        return r

    def _field(self, x, key):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg':
            if isinstance(key, tuple) and key[0] == 'd':
                if p[2] is None:
                    return x
                return x if p[2] == key[1] else BOTTOM
            for k, v in p[3]:
                if k == key:
                    return v
            if p[1] == 'vec' and key == 'len':
                return E.const(len(p[3]))
            return BOTTOM if p[2] is not None else term(('proj', x, key))
        if p[0] == 'upd':
            for k, v in p[2]:
                if k == key:
                    return v
            return self._field(p[1], key)
        if p[0] == 'num' or p[0] in ('true', 'false'):
            # newtype wrapper around a scalar
            return x
        if p[0] == 'ptr':
            return x
        if p[0] == 'flags':
            return x
        if p[0] == 'app' and p[1] == 'vpush' and key == 'len':
            l = self.field(p[2][0], 'len')
            return E.add(self.coerce_num(l), E.ONE)
        return term(('proj', x, key))

    def coerce_num(self, v):
        def f(x):
            p = payload(x)
            if p[0] in self.RAW and x != BOTTOM:
                return E.num(E.patom(x))
            return x
        return E.apply1('conum', f, v)

    def index(self, v, idx):
        return E.apply2(('idx', self.distinct), lambda x, i: self._index(x, i), v, idx)

    def _ikey(self, i):
        return ('i', i)

    def _index(self, x, i):
        if x == BOTTOM or i == BOTTOM:
            return BOTTOM
        p = payload(x)
        if p[0] == 'agg':
            for k, v in p[3]:
                if k == ('i', i):
                    return v
            if not E.pisconst(E.poly(i)):
                r = None
                for k, v in p[3]:
                    if isinstance(k, tuple) and k[0] == 'i':
                        r = v if r is None else ite(E.eqnum(i, k[1]), v, r)
                if r is not None:
                    return r
            return term(('proj', x, ('i', i)))
        if p[0] == 'upd':
            r = None
            rest = []
            for k, v in p[2]:
                if k == ('i', i):
                    return v
                if isinstance(k, tuple) and k[0] == 'i':
                    rest.append((k, v))
            r = self._index(p[1], i)
            if not self.distinct:
                for k, v in rest:
                    c = E.eqnum(i, k[1])
                    if c == FALSE:
                        continue
                    r = ite(c, v, self._like(r, v))
            return r
        if p[0] == 'app' and p[1] == 'repeat':
            return p[2][0]
        if p[0] == 'app' and p[1] == 'vpush':
            n = self.coerce_num(self.field(p[2][0], 'len'))
            c = E.eqnum(i, n)
            if c == TRUE:
                return p[2][1]
            rest = self._index(p[2][0], i)
            if c == FALSE or self.distinct:
                return rest
            return ite(c, p[2][1], self._like(rest, p[2][1]))
        return term(('proj', x, ('i', i)))

    def _like(self, r, v):
        if is_term(r) and payload(r)[0] in self.RAW and r != BOTTOM:
            return E.like(r, v)
        return r

    def set_field(self, v, key, new):
        def f(x):
            p = payload(x)
            if x == BOTTOM:
                return BOTTOM
            if p[0] == 'agg':
                ks = [k for k, _ in p[3]]
                if key in ks:
                    return term(('agg', p[1], p[2], tuple((k, new if k == key else o) for k, o in p[3])))
                if isinstance(key, tuple) and key[0] == 'i' and not E.pisconst(E.poly(key[1])):
                    out = []
                    for k, o in p[3]:
                        out.append((k, ite(E.eqnum(key[1], k[1]), new, o)) if isinstance(k, tuple) and k[0] == 'i' else (k, o))
                    return term(('agg', p[1], p[2], tuple(out)))
                return term(('agg', p[1], p[2], p[3] + ((key, new),)))
            if p[0] == 'upd':
                out = []
                for k, o in p[2]:
                    if k == key:
                        continue
                    if isinstance(key, tuple) and key[0] == 'i' and isinstance(k, tuple) and k[0] == 'i' and not self.distinct:
                        c = E.eqnum(key[1], k[1])
                        if c != FALSE:
                            o = ite(c, new, o)
                    out.append((k, o))
                return E.mk_upd(p[1], out + [(key, new)])
            if p[0] in ('num', 'true', 'false', 'flags', 'ptr'):
                return new
            return E.mk_upd(x, [(key, new)])
        if is_term(v):
            return f(v)
        return E.apply1(('setf', key, new, self.distinct), f, v)

    def update(self, v, path, new, guard=TRUE):
        if not path:
            return new
        k = path[0]
        if isinstance(k, tuple) and k[0] == 'd':
            # writing inside an enum payload
            return self._upd_variant(v, path, new)
        if isinstance(k, tuple) and k[0] == 'i' and not is_term(k[1]):
            out = None
            for c, i in E.leaves(k[1]):
                nv = self.update(v, (('i', i),) + tuple(path[1:]), new)
                out = nv if out is None else ite(c, nv, out)
            return out
        child = self.field(v, k)
        return self.set_field(v, k, self.update(child, path[1:], new))

    def _upd_variant(self, v, path, new):
        k = path[0]

        def f(x):
            p = payload(x)
            if p[0] == 'agg':
                if p[2] is not None and p[2] != k[1]:
                    return BOTTOM
                return self.update(x, path[1:], new)
            child = self.field(x, k)
            return self.set_field(x, k, self.update(child, path[1:], new))
        return E.apply1(('updv', tuple(path), new), f, v)

    # ------------------------------------------------------------------ memory
    def root_content(self, st, root, t=None):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'H':
                v = root[1]
            elif root[0] == 'NULL':
                v = BOTTOM
            else:
                v = self.sym('uninit', root)
            if st.hv and root[0] == 'H' and t is not None:
                for (no, mods) in st.hv:
                    v = self.havoc_root(v, t, mods, ('hv', no, root[1]))
            if t is not None and root[0] in ('H', 'N'):
                self.root_types.setdefault(root, t)
            st.mem[root] = v
        elif t is not None and root not in self.root_types and root[0] in ('H', 'N'):
            self.root_types[root] = t
        return v

    def load(self, st, ptr, t=None, roott=None):
        def f(x):
            q = self._slice(x)
            if q and q[1] == E.ZERO:
                x = q[0]
            p = payload(x)
            if p[0] != 'ptr':
                if x == BOTTOM:
                    return BOTTOM
                if p[0] in self.RAW:
                    p = payload(self.mkptr(x))
                else:
                    return x       # scalar newtype seen through a pointer-like wrapper
            v = self.root_content(st, p[1], roott if not p[2] else None)
            for k in p[2]:
                v = self.field(v, k)
            return v
        v = f(ptr) if is_term(ptr) else self._leafwise(ptr, f)
        if not is_term(v) and st.pc != TRUE:
            v = E.constrain(v, st.pc)
        return self.coerce(v, t)

    def _leafwise(self, n, f):
        if is_term(n):
            return f(n)
        _, v, hi, lo = E.node(n)
        return E.mk_bdd_ite(v, self._leafwise(hi, f), self._leafwise(lo, f))

    def store(self, st, ptr, value, frame=None, line=0, roott=None):
        ls = [(TRUE, ptr)] if is_term(ptr) else E.leaves(ptr)
        for c, x in ls:
            p = payload(x)
            if p[0] != 'ptr':
                if x == BOTTOM:
                    continue
                p = payload(self.mkptr(x)) if p[0] in self.RAW else None
                if p is None:
                    raise Unsupported('store through %s' % E.show(x))
            root, path = p[1], p[2]
            old = self.root_content(st, root, roott if not path else None)
            if not path:
                new = value
            else:
                new = self.update(old, path, value)
            if c != TRUE:
                new = ite(c, new, old if is_term(old) and payload(old)[0] not in self.RAW or path else self._like(old, value))
            st.mem[root] = new
            if self.log_writes and root[0] in ('H', 'N') and frame is not None:
                self.effects.append(Effect('write', AND(st.pc, c), frame.path, line, loc=(root, path), value=value))

    def extend(self, ptr, key):
        if isinstance(key, tuple) and key[0] == 'i' and any(self._slice(x) for x in ([ptr] if is_term(ptr) else [t for _, t in E.leaves(ptr)])):
            def sl(x):
                q = self._slice(x)
                return self.extend(q[0], ('i', E.add(q[1], key[1]))) if q else self.extend(x, key)
            return self._leafwise(ptr, sl)

        def f(x):
            p = payload(x)
            if p[0] == 'ptr':
                return term(('ptr', p[1], p[2] + (key,)))
            if x == BOTTOM:
                return BOTTOM
            if p[0] in self.RAW:
                q = payload(self.mkptr(x))
                return term(('ptr', q[1], q[2] + (key,)))
            return x
        if isinstance(key, tuple) and key[0] == 'i' and not is_term(key[1]):
            def g(x, i):
                p = payload(x)
                if x == BOTTOM or i == BOTTOM:
                    return BOTTOM
                if p[0] == 'ptr':
                    return term(('ptr', p[1], p[2] + (('i', i),)))
                q = payload(self.mkptr(x))
                return term(('ptr', q[1], q[2] + (('i', i),)))
            return E.apply2('extidx', g, ptr, key[1])
        return E.apply1(('ext', key, id(self) if self.alias else 0), f, ptr)

    def _slice(self, x):
        """(base pointer, start, end) of a sub-slice view."""
        p = payload(x)
        if p[0] == 'app' and p[1] == 'slice':
            return p[2]
        if p[0] == 'ptr' and p[1][0] == 'H' and not p[2]:
            q = payload(p[1][1]) if is_term(p[1][1]) else ('',)
            if q[0] == 'app' and q[1] == 'slice':
                return q[2]
        return None

    def havoc_value(self, v, t, mods, tag):
        """forget every field of v (of type t) that may have been written by a callee with mod set `mods`."""
        P = self.P
        t = P.peel(t)
        d = P.types[t]
        if d['k'] == 'adt':
            if d['p'] in PTR_ADTS:
                return v
            if d['p'] in P.bitflag_adts or d['p'] not in P.adts:
                if (d['p'], '*') in mods:
                    return self.coerce(term(('app', 'hv', tag)), t)
                if d['p'] in ('std::vec::Vec', 'std::option::Option') and d.get('a') and isinstance(d['a'][0], int):
                    if self._mods_touch(d['a'][0], mods):
                        return term(('app', 'hv', tag))
                return v
            a = P.adts[d['p']]
            if (d['p'], '*') in mods:
                return self.coerce(term(('app', 'hv', tag)), t)
            if a['enum']:
                return v
            for fn, ft, _ in a['v'][0]['f']:
                ft2 = P.field_type(t, fn)
                if (d['p'], fn) in mods:
                    v = self.set_field(v, fn, self.coerce(term(('app', 'hv', tag + (fn,))), ft2))
                elif self._mods_touch(ft2, mods):
                    o = self.field(v, fn)
                    n = self.havoc_value(o, ft2, mods, tag + (fn,))
                    if n != o:
                        v = self.set_field(v, fn, n)
            return v
        if d['k'] in ('array', 'slice'):
            if self._mods_touch(d['t'], mods):
                return term(('app', 'hv', tag))
            return v
        if d['k'] == 'dyn':
            # contents of an unknown implementor: only its `base` is named
            return v
        return v

    def _mods_touch(self, t, mods, depth=0):
        P = self.P
        if t is None or depth > 6:
            return False
        t = P.peel(t)
        d = P.types[t]
        if d['k'] in ('array', 'slice'):
            return self._mods_touch(d['t'], mods, depth + 1)
        if d['k'] == 'adt':
            if d['p'] in PTR_ADTS:
                return False
            if (d['p'], '*') in mods:
                return True
            if d['p'] in P.adts:
                for vv in P.adts[d['p']]['v']:
                    for fn, ft, _ in vv['f']:
                        if (d['p'], fn) in mods:
                            return True
                        if self._mods_touch(ft, mods, depth + 1):
                            return True
                return False
            if d['p'] in ('std::vec::Vec', 'std::option::Option'):
                return bool(d.get('a')) and isinstance(d['a'][0], int) and self._mods_touch(d['a'][0], mods, depth + 1)
        return False

    def in_reach(self, t, mods):
        """can a callee with this mod set reach an object of type t through a shared cell?"""
        reach = getattr(mods, 'reach', None)
        if reach is None or t is None:
            return True
        d = self.P.types[self.P.peel(t)]
        if d['k'] == 'adt':
            return d['p'] in reach
        if d['k'] == 'dyn':
            return 'dyn ' + str(d['p']) in reach
        return True

    def havoc_root(self, v, t, mods, tag):
        return self.havoc_value(v, t, mods, tag) if self.in_reach(t, mods) else v

    def havoc(self, st, mods, no):
        for root in list(st.mem):
            if root[0] not in ('H', 'N'):
                continue
            t = self.root_types.get(root)
            if t is None:
                continue
            st.mem[root] = self.havoc_root(st.mem[root], t, mods, ('hv', no, root[1]))
        st.hv = st.hv + ((no, mods),)

    # ------------------------------------------------------------------ places
    def place_ptr(self, fr, st, pl):
        """pointer node for a place, and the type of the last root (for materialisation)."""
        cur = term(('ptr', ('L', fr.id, pl['l']), ()))
        loct = self.P.subst(fr.body['locals'][pl['l']][0], fr.sub)
        ct = loct       # current type (best effort)
        ct = self.P.peel(ct)
        for x in pl['p']:
            k = x[0]
            if k == '*':
                if self.P.types[ct]['k'] == 'adt' and self.P.types[ct]['p'] in PTR_ADTS or self.P.types[ct]['k'] in ('ref', 'ptr'):
                    v = self.load(st, cur, ct)
                    cur = v
                    pt = self.P.pointee(ct)
                    ct = pt if pt is not None else ct
                    if is_term(cur) and payload(cur)[0] == 'ptr' and not payload(cur)[2]:
                        self.root_content(st, payload(cur)[1], ct)
                else:
                    v = self.load(st, cur, None)
                    cur = v
            elif k == 'f':
                d = self.P.types[ct]
                if d['k'] == 'adt' and (d['p'] in PTR_ADTS or d['p'] in CELL_ADTS) or x[2] in PTR_ADTS or x[2] in CELL_ADTS:
                    continue       # Box.0.0 etc: representation of a pointer wrapper
                key = x[1]
                if d['k'] == 'closure':
                    key = str(x[3])
                cur = self.extend(cur, key)
                nt = self.P.field_type(ct, x[1], self._variant) if d['k'] == 'adt' and d['p'] in self.P.adts else None
                if d['k'] == 'tuple':
                    try:
                        nt = d['a'][int(x[3])]
                    except (IndexError, ValueError):
                        nt = None
                if nt is None and d['k'] == 'adt' and d['p'] == 'std::option::Option' and d.get('a'):
                    nt = d['a'][0]
                self._variant = 0
                ct = self.P.peel(nt) if nt is not None else self._unknown()
            elif k == 'd':
                cur = self.extend(cur, ('d', x[1]))
                self._variant = x[2]
            elif k == 'i':
                i = self.load(st, term(('ptr', ('L', fr.id, x[1]), ())), self._usize())
                cur = self.extend(cur, ('i', i))
                d = self.P.types[ct]
                ct = self.P.peel(d['t']) if d['k'] in ('array', 'slice') else (self.P.peel(d['a'][0]) if d['k'] == 'adt' and d.get('a') else self._unknown())
            elif k == 'ci':
                if x[2]:
                    ln = self.coerce_num(self.load(st, self.extend(cur, 'len')))
                    idx = E.sub(ln, E.const(x[1]))
                else:
                    idx = E.const(x[1])
                cur = self.extend(cur, ('i', idx))
                d = self.P.types[ct]
                ct = self.P.peel(d['t']) if d['k'] in ('array', 'slice') else self._unknown()
            elif k == 'sub':
                pass
            else:
                raise Unsupported('projection ' + repr(x))
        self._lastt = ct
        return cur

    _variant = 0

    def _usize(self):
        if not hasattr(self, '_us'):
            self._us = self.P.intern({'s': 'usize', 'k': 'prim'})
        return self._us

    def _unknown(self):
        if not hasattr(self, '_uk'):
            self._uk = self.P.intern({'s': '?', 'k': 'other'})
        return self._uk

    def read_place(self, fr, st, pl):
        t = self.P.subst(pl['t'], fr.sub)
        if not pl['p']:
            return self.load(st, term(('ptr', ('L', fr.id, pl['l']), ())), t)
        ptr = self.place_ptr(fr, st, pl)
        return self.load(st, ptr, t)

    def write_place(self, fr, st, pl, v, line):
        if not pl['p']:
            st.mem[('L', fr.id, pl['l'])] = v
            return
        ptr = self.place_ptr(fr, st, pl)
        self.store(st, ptr, v, fr, line)

    # ------------------------------------------------------------------ operands / rvalues
    def const_num(self, s):
        if s in ('inf', '-inf', 'NaN'):
            return E.num(E.patom(term(('sym', s))))
        f = Fraction(s)
        if f != 0:
            g = f.limit_denominator(10000)
            if g != f and abs(g - f) <= abs(f) * Fraction(12, 100000000):
                f = g
        return E.const(f)

    def operand(self, fr, st, o):
        if o['o'] != 'const':
            return self.read_place(fr, st, o['pl'])
        return self.constant(fr, st, o)

    def constant(self, fr, st, o):
        t = self.P.subst(o['t'], fr.sub) if fr else o['t']
        if 'promoted' in o:
            body = self.P.fns[o['uid']]['promoted'][o['promoted']] if o['uid'] in self.P.fns else None
            if body is not None:
                return self.eval_body_const(fr, st, body, o['uid'], o['promoted'])
        if 'v' in o:
            if isinstance(o['v'], bool):
                return TRUE if o['v'] else FALSE
            return E.const(o['v'])
        if 'f' in o:
            return self.const_num(o['f'])
        if 'fn' in o:
            return term(('fn', repr(o.get('ruid') or o['fnuid'])))
        d = self.P.types[self.P.peel(t)]
        if d['k'] == 'adt' and d['p'] in self.P.bitflag_adts and 'bits' in o:
            return term(('flags', None, tuple((i, TRUE) for i in range(64) if o['bits'] >> i & 1)))
        if d['k'] == 'tuple' and not d['a']:
            return UNIT
        if 'uid' in o and o['uid'] in self.P.fns and self.P.fns[o['uid']]['kind'] == 'const':
            return self.eval_body_const(fr, st, self.P.fns[o['uid']], o['uid'], None)
        s = o.get('d', '?')
        if d['k'] == 'adt' and d['p'] == 'std::option::Option':
            if s.endswith('None'):
                return self.none()
        return self.coerce(self.sym('const', s), t)

    def generic_len(self):
        """the array length a function is generic over."""
        return E.like(self.sym('const', '?'), E.ZERO)

    def eval_body_const(self, fr, st, body, uid, pno):
        nf = self.new_frame(fr.fn if fr else None, body, fr.sub if fr else {}, 'const ' + uid, (fr.depth if fr else 0) + 1)
        s2 = State(dict(st.mem), TRUE, TRUE, st.hv)
        save = self.effects
        self.effects = []
        v = self.run_body(nf, s2)
        self.effects = save
        for r, c in s2.mem.items():
            if r[0] == 'L' and r[1] == nf.id and r not in st.mem:
                st.mem[r] = c
        return v

    def none(self):
        return term(('agg', 'std::option::Option', 'None', ()))

    def some(self, v):
        return term(('agg', 'std::option::Option', 'Some', (('0', v),)))

    def discr_of(self, v, t):
        P = self.P
        d = P.types[P.peel(t)]

        def f(x):
            p = payload(x)
            if x == BOTTOM:
                return BOTTOM
            if p[0] == 'agg' and p[2] is not None:
                return E.const(self.disc_value(d, p[2], p[1]))
            if p[0] in ('num', 'true', 'false'):
                return x
            discs = self.discs(d)
            if discs is None:
                return E.num(E.patom(term(('app', 'discr', (x,)))))
            return term(('discr', x, d.get('p'), tuple(discs)))
        return E.apply1(('discr', P.peel(t), id(P)), f, v)

    STD_ENUMS = {'std::option::Option': ['None', 'Some'], 'std::result::Result': ['Ok', 'Err'], 'std::cmp::Ordering': ['Less', 'Equal', 'Greater'],
                 'std::ops::ControlFlow': ['Continue', 'Break']}

    def discs(self, d):
        if d['k'] != 'adt':
            return None
        if d['p'] in self.P.adts:
            a = self.P.adts[d['p']]
            return [int(x) for x in a['discs']] or [v['d'] for v in a['v']]
        if d['p'] == 'std::cmp::Ordering':
            return [-1, 0, 1]
        if d['p'] in self.STD_ENUMS:
            return list(range(len(self.STD_ENUMS[d['p']])))
        return None

    def disc_value(self, d, vname, adt):
        p = d.get('p') if d['k'] == 'adt' and d.get('p') == adt else adt
        if p in self.P.adts:
            a = self.P.adts[p]
            for i, v in enumerate(a['v']):
                if v['n'] == vname:
                    return int(a['discs'][i]) if a['discs'] else v['d']
        if p == 'std::cmp::Ordering':
            return {'Less': -1, 'Equal': 0, 'Greater': 1}[vname]
        if p in self.STD_ENUMS:
            return self.STD_ENUMS[p].index(vname)
        raise Unsupported('discriminant of %s::%s' % (p, vname))

    def rvalue(self, fr, st, r, desttype):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['a'])
        if k == 'ref':
            return self.place_ptr(fr, st, r['pl'])
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, st, r['a']), self.operand(fr, st, r['b']), self._optype(fr, r['a']))
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            if r['op'] == 'Neg':
                return E.neg(a)
            if r['op'] == 'Not':
                t = self.P.types[self._optype(fr, r['a'])]
                if t['s'] == 'bool':
                    return NOT(a)
                return E.numapp('bitnot', a)
            if r['op'] == 'PtrMetadata':
                # slice length behind a fat pointer
                v = self.load(st, self.extend(a, 'len'))
                pt = self.P.types[self.P.pointee(self._optype(fr, r['a']))] if self.P.pointee(self._optype(fr, r['a'])) is not None else None
                return self.coerce_num(self.arr_len(st, a))
            raise Unsupported('unop ' + r['op'])
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'adt':
                if r['p'] in CELL_ADTS and len(ops) == 1:
                    return ops[0]
                if r['p'] in PTR_ADTS and ops:
                    return ops[0]
                if r['p'] in self.P.bitflag_adts:
                    return ops[0]
                names = r['fn']
                return term(('agg', r['p'], r['vn'] if r['enum'] else None, tuple(zip(names, ops))))
            if ak == 'tuple':
                return term(('agg', '()', None, tuple((str(i), o) for i, o in enumerate(ops))))
            if ak == 'array':
                return term(('agg', 'vec', None, tuple((('i', E.const(i)), o) for i, o in enumerate(ops))))
            if ak == 'closure':
                return term(('agg', ('closure', r['u']), None, tuple((str(i), o) for i, o in enumerate(ops))))
            raise Unsupported('aggregate ' + str(ak))
        if k == 'cast':
            return self.cast(r['ck'], self.operand(fr, st, r['a']), self._optype(fr, r['a']), self.P.subst(r['t'], fr.sub))
        if k == 'discr':
            t = self.P.subst(r['pl']['t'], fr.sub)
            return self.discr_of(self.read_place(fr, st, r['pl']), t)
        if k == 'repeat':
            v = self.operand(fr, st, r['a'])
            n = r['n']
            try:
                n = int(n)
            except (TypeError, ValueError):
                n = None
            if n is not None and n < 0:
                n = None
            if n is not None and n <= 32:
                return term(('agg', 'vec', None, tuple((('i', E.const(i)), v) for i in range(n))))
            return term(('app', 'repeat', (v, E.const(n) if n is not None else self.generic_len())))
        raise Unsupported('rvalue ' + k + ' ' + repr(r)[:200])

    def arr_len(self, st, ptr):
        def f(x):
            p = payload(x)
            if p[0] == 'agg' and p[1] == 'vec':
                return E.const(len([1 for k, _ in p[3] if isinstance(k, tuple) and k[0] == 'i']))
            if p[0] == 'app' and p[1] == 'repeat':
                return p[2][1]
            if p[0] == 'upd':
                for k, v in p[2]:
                    if k == 'len':
                        return v
                return f(p[1])
            return self._field(x, 'len')
        if is_term(ptr) and self._slice(ptr):
            q = self._slice(ptr)
            return E.sub(q[2], q[1])
        return self.coerce_num(self._leafwise(self.load(st, ptr), f))

    def _optype(self, fr, o):
        t = o['pl']['t'] if o['o'] != 'const' else o['t']
        return self.P.subst(t, fr.sub)

    def binop(self, op, a, b, t):
        ty = self.P.types[self.P.peel(t)]
        if op in ('Add', 'AddUnchecked'):
            return E.add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return E.sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return E.mul(a, b)
        if op == 'Div':
            if ty['s'] in ('f32', 'f64'):
                return E.div(a, b)
            return E.numapp('idiv', a, b)
        if op == 'Rem':
            return E.numapp('rem', a, b)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if ty['s'] == 'bool':
                raise Unsupported('ordering of booleans')
            return {'Lt': E.lt, 'Le': E.le, 'Gt': E.gt, 'Ge': E.ge}[op](a, b)
        if op in ('Eq', 'Ne'):
            r = self.equal(a, b, ty)
            return r if op == 'Eq' else NOT(r)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ty['s'] == 'bool':
                return {'BitAnd': AND, 'BitOr': OR, 'BitXor': E.XOR}[op](a, b)
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = sorted((a, b))

                def f(p, q):
                    pp, qq = E.poly(p), E.poly(q)
                    if E.pisconst(pp) and E.pisconst(qq):
                        i, j = int(E.pcval(pp)), int(E.pcval(qq))
                        return E.const({'BitAnd': i & j, 'BitOr': i | j, 'BitXor': i ^ j}[op])
                    if op == 'BitAnd' and (pp == () or qq == ()):
                        return E.ZERO
                    u, w = sorted((p, q))
                    return E.num(E.patom(term(('app', op, (u, w)))))
                return E.apply2(op, f, x, y)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return E.numapp(op[:3], a, b)
        if op == 'Offset':
            return E.app('offset', a, b)
        raise Unsupported('binop ' + op)

    def equal(self, a, b, ty=None):
        if ty is not None and ty['s'] == 'bool':
            return NOT(E.XOR(a, b))

        def f(x, y):
            if x == y:
                return TRUE
            px, py = payload(x), payload(y)
            if px[0] == 'ptr' and py[0] == 'ptr':
                return self.ptr_equal(x, y)
            return E._eqleaf(x, y)
        return E.apply2(('equal',), f, a, b)

    def ptr_equal(self, x, y):
        if x == y:
            return TRUE
        px, py = payload(x), payload(y)
        if px[1][0] == 'N' and py[1][0] == 'N':
            return FALSE
        if ('NULL',) in (px[1], py[1]):
            return FALSE
        u, w = sorted((x, y))
        return E._mk(('ite', E.var_of(('peq', u, w)), TRUE, FALSE))

    def cast(self, ck, v, ft, tt):
        f, t = self.P.types[self.P.peel(ft)], self.P.types[self.P.peel(tt)]
        if ck == 'FloatToInt':
            return E.applyn('trunc', lambda x: x if E.pisconst(E.poly(x)) and E.pcval(E.poly(x)).denominator == 1 else E.num(E.patom(term(('app', 'trunc', (x,))))), [v])
        if f['s'] == 'bool':
            return E.apply1('b2i', lambda x: E.ONE if x == TRUE else E.ZERO if x == FALSE else x, v)
        if ck in ('IntToFloat', 'IntToInt', 'FloatToFloat'):
            return v
        fp, tp = self.P.pointee(ft), self.P.pointee(tt)
        if fp is not None and tp is not None:
            a, b = self.P.types[self.P.peel(fp)], self.P.types[self.P.peel(tp)]
            if a['k'] == 'array' and b['k'] == 'slice' and isinstance(a.get('n'), int):
                return self._leafwise(v, lambda x: x if x == BOTTOM else term(('app', 'slice', (x, E.ZERO, E.const(a['n']) if a['n'] >= 0 else self.generic_len()))))
        return v        # pointer coercions, unsizing, transmutes of pointer wrappers

    # ------------------------------------------------------------------ control
    def new_frame(self, fn, body, sub, path, depth):
        fr = Frame()
        self.nframes += 1
        fr.id = self.nframes
        fr.fn, fr.body, fr.sub, fr.path, fr.depth = fn, body, sub, path, depth
        fr.cfg = self.P.cfg(body)
        return fr

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        self.stats['joins'] += 1
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return acc

    def merge2(self, a, b):
        if a.pc == FALSE:
            return b
        if b.pc == FALSE:
            return a
        pc = OR(a.pc, b.pc)
        c = E.constrain(a.pc, pc)
        out = State({}, pc, AND(a.assume, b.assume), a.hv if len(a.hv) >= len(b.hv) else b.hv)
        for r in set(a.mem) | set(b.mem):
            va, vb = a.mem.get(r), b.mem.get(r)
            if va == vb:
                out.mem[r] = va
                continue
            if va is None or vb is None:
                if r[0] == 'H':
                    t = self.root_types.get(r)
                    if va is None:
                        va = self._fresh_content(a, r, t)
                    else:
                        vb = self._fresh_content(b, r, t)
                    if va == vb:
                        out.mem[r] = va
                        continue
                else:
                    # local initialised on one side only
                    out.mem[r] = va if vb is None else vb
                    continue
            va, vb = self._align(va, vb)
            out.mem[r] = ite(c, va, vb)
        return out

    def _align(self, va, vb):
        if is_term(va) and payload(va)[0] in self.RAW and va != BOTTOM:
            va = E.like(va, vb) if not (is_term(vb) and payload(vb)[0] in ('agg', 'upd') + self.RAW) else va
        if is_term(vb) and payload(vb)[0] in self.RAW and vb != BOTTOM:
            vb = E.like(vb, va) if not (is_term(va) and payload(va)[0] in ('agg', 'upd') + self.RAW) else vb
        return va, vb

    def _fresh_content(self, st, r, t):
        v = r[1]
        if t is not None:
            for (no, mods) in st.hv:
                v = self.havoc_root(v, t, mods, ('hv', no, r[1]))
        return v

    def run_body(self, fr, st):
        """analyse a whole body; returns the return value and leaves the exit state in st."""
        cfg = fr.cfg
        outs = self.run_region(fr, set(cfg.order), 0, [st.copy()], None)
        rets = outs.get('ret', [])
        if not rets:
            st.pc = FALSE
            return BOTTOM
        m = self.merge(rets)
        st.mem, st.pc, st.assume, st.hv = m.mem, m.pc, m.assume, m.hv
        return self.load(st, term(('ptr', ('L', fr.id, 0), ())), self.P.subst(fr.body['locals'][0][0], fr.sub)) if ('L', fr.id, 0) in st.mem else UNIT

    def run_region(self, fr, region, entry, entry_states, loop_header):
        """process the blocks of a region in RPO; returns {target outside region: states, 'ret': states, 'back': states}."""
        cfg = fr.cfg
        pend = {entry: list(entry_states)}
        outs = {}
        done_inner = set()

        def emit(t, s):
            if s.pc == FALSE:
                return
            if loop_header is not None and t == loop_header:
                outs.setdefault('back', []).append(s)
            elif t in region:
                pend.setdefault(t, []).append(s)
            else:
                outs.setdefault(t, []).append(s)
        for b in cfg.order:
            if b not in region or b in done_inner:
                continue
            ss = pend.pop(b, None)
            if not ss:
                continue
            if time.time() - self.t0 > self.time_limit:
                raise Budget('time limit in %s' % fr.path)
            st = self.merge(ss)
            if st.pc == FALSE:
                continue
            if b in cfg.loops and b != loop_header:
                body = cfg.loops[b]
                done_inner |= body
                for t, s in self.run_loop(fr, b, body, st):
                    emit(t, s) if t != 'ret' else outs.setdefault('ret', []).append(s)
                continue
            self.stats['blocks'] += 1
            self.exec_block(fr, b, st, emit, outs)
        return outs

    def unrolled(self, fr, header, body, st):
        """exact treatment of a loop whose trip count is decided; None when it is not decided within the bound."""
        saved = (self.nalloc, dict(self.ncalls), self.nloops, len(self.effects))
        res = []
        cur = st.copy()
        for it in range(self.unroll + 1):
            outs = self.run_region(fr, body, header, [cur], header)
            backs = outs.pop('back', [])
            for t, ss in outs.items():
                res += [(t, s) for s in ss]
            if not backs:
                return [(t, s) for t, s in res if s.pc != FALSE]
            cur = self.merge(backs)
        self.nalloc, self.ncalls, self.nloops = saved[0], saved[1], saved[2]
        del self.effects[saved[3]:]
        return None

    def run_loop(self, fr, header, body, st):
        if self.unroll:
            r = self.unrolled(fr, header, body, st)
            if r is not None:
                by = {}
                for t, s in r:
                    by.setdefault(t, []).append(s)
                return [(t, self.merge(ss)) for t, ss in by.items()]
        self.nloops += 1
        no = self.nloops
        entry = st.copy()
        mus = {}
        saved = self.effects
        saved_ctx = (self.nalloc, dict(self.ncalls), self.nloops, self.nframes)
        self.loop_ctx += 1
        for it in range(12):
            self.nalloc, self.ncalls, self.nloops = saved_ctx[0], dict(saved_ctx[1]), saved_ctx[2]
            s = entry.copy()
            for (root, path), (init, symv) in mus.items():
                s.mem[root] = self.update(self.root_content(s, root), path, symv) if path else symv
            head = s.copy()
            self.effects = []
            outs = self.run_region(fr, body, header, [s], header)
            sub = self.effects
            backs = outs.pop('back', [])
            if not backs:
                break
            bs = self.merge(backs)
            for _n, m in bs.hv[len(entry.hv):]:
                if (_n, m) not in entry.hv:
                    pass
            new = {}
            for root in head.mem:
                if root not in bs.mem:
                    continue
                h, n = head.mem[root], bs.mem[root]
                if h == n:
                    continue
                for path in self.diff(h, n, ()):
                    if any((root, path[:j]) in mus for j in range(len(path) + 1)):
                        continue
                    new[(root, path)] = None
            # roots first touched inside the body (heap objects named by invariant paths)
            for root, n in bs.mem.items():
                if root in head.mem or root[0] != 'H':
                    continue
                t = self.root_types.get(root)
                h = self._fresh_content(head, root, t)
                if h == n:
                    continue
                for path in self.diff(h, n, ()):
                    if not any((root, path[:j]) in mus for j in range(len(path) + 1)):
                        if not self._variant_root(root, mus, no):
                            new[(root, path)] = None
            if not new:
                if self.pair_counters(mus, bs):
                    continue
                break
            if any(r[0] != 'H' for r, _ in new):
                # loop-carried locals first: they decide which objects the body touches
                new = {kk: x for kk, x in new.items() if kk[0][0] != 'H'}
            # drop longer paths covered by shorter ones
            keys = sorted(new, key=lambda rp: (len(rp[1]), repr(rp)))
            for (root, path) in keys:
                if any((root, path[:j]) in mus for j in range(len(path))):
                    continue
                for old in [k for k in mus if k[0] == root and k[1][:len(path)] == path]:
                    del mus[old]
                init = self.root_content(entry, root, self.root_types.get(root))
                for k in path:
                    init = self.field(init, k) if not (isinstance(k, tuple) and k[0] == 'bit') else self.flagbit(init, k[1])
                symn = self.sym('mu', no, self.muname(fr, root, path, no, len(mus)))
                nxt = bs.mem[root]
                for k in path:
                    nxt = self.field(nxt, k) if not (isinstance(k, tuple) and k[0] == 'bit') else self.flagbit(nxt, k[1])
                mus[(root, path)] = (init, self.keep_len(self.mulike(symn, init, nxt), init, nxt))
        else:
            self.warnings.append('loop %s in %s did not stabilise' % (header, fr.path))
        self.loop_ctx -= 1
        nexts = {}
        if backs:
            for (root, path), (init, symv) in mus.items():
                v = bs.mem.get(root)
                if v is None:
                    continue
                for k in path:
                    v = self.field(v, k) if not (isinstance(k, tuple) and k[0] == 'bit') else self.flagbit(v, k[1])
                nexts[(root, path)] = v
        self.effects = saved
        info = {'no': no, 'header': header, 'mus': {k: (i, s_, nexts.get(k)) for k, (i, s_) in mus.items()}, 'exits': [], 'back_pc': bs.pc if backs else FALSE, 'back_mem': bs.mem if backs else {},
                'fnuid': fr.fn['uid'] if fr.fn else None}
        eff = Effect('loop', st.pc, fr.path, self._line(fr, header), sub=sub, info=info)
        self.effects.append(eff)
        res = []
        targets = [t for t in outs if t != 'ret']
        for t in outs:
            for s in outs[t]:
                info['exits'].append((t, s.pc))
        if len([t for t in outs]) == 1:
            t = next(iter(outs))
            m = self.merge(outs[t])
            m.assume = AND(m.assume, OR(NOT(st.pc), m.pc))
            info['exit_cond'] = m.pc
            m.pc = st.pc
            res.append((t, m))
        else:
            for t, ss in outs.items():
                res.append((t, self.merge(ss)))
        return res

    def pair_counters(self, mus, bs):
        """two variables that advance by the same constant stay at their initial distance: name one through the other.

        Likewise one that counts down as another counts up."""
        lead = {}
        changed = False
        for key in sorted(mus, key=repr):
            root, path = key
            init, symv = mus[key]
            if not is_term(symv) or payload(symv)[0] != 'num' or not E.isnum(init) or any(isinstance(k, tuple) and k[0] == 'bit' for k in path):
                continue
            v = bs.mem.get(root)
            if v is None:
                continue
            for k in path:
                v = self.field(v, k)
            v = E.constrain(v, bs.pc)
            if not E.isnum(v):
                continue
            d = E.sub(v, symv)
            if not is_term(d) or payload(d)[0] != 'num' or not E.pisconst(payload(d)[1]) or d == E.ZERO:
                continue
            if d not in lead:
                lead[d] = (init, symv)
                n = E.neg(d)
                if n in lead and is_term(init) and is_term(lead[n][0]) and E.lt(d, E.ZERO) == TRUE:
                    # one counts up, the other down
                    w = E.sub(E.add(init, lead[n][0]), lead[n][1])
                    if w != symv:
                        mus[key] = (init, w)
                        changed = True
                continue
            for i0, s0 in [lead[d]]:
                off = E.sub(init, i0)
                if is_term(off) and payload(off)[0] == 'num' and E.pisconst(payload(off)[1]):
                    w = E.add(s0, off)
                    if w != symv:
                        mus[key] = (init, w)
                        changed = True
        return changed

    def keep_len(self, symv, init, nxt):
        """element updates do not change the length of a sequence."""
        def seq(x):
            p = payload(x)
            return p[0] == 'upd' and all(isinstance(k, tuple) and k[0] == 'i' or k == 'len' for k, _ in p[2]) and any(k != 'len' for k, _ in p[2])
        if not is_term(symv) or payload(symv)[0] != 'sym' or not all(x == BOTTOM or seq(x) or payload(x)[0] in self.RAW for _, x in E.leaves(nxt)) or not any(seq(x) for _, x in E.leaves(nxt)):
            return symv
        a, b = self.coerce_num(self.field(init, 'len')), self.coerce_num(self.field(nxt, 'len'))
        if is_term(b) and payload(b)[0] == 'num' and a == b:
            return E.mk_upd(symv, [('len', a)])
        return symv

    def _variant_root(self, root, mus, no):
        """objects named through this loop's own symbols are different objects each iteration."""
        return self._mentions(root[1], ('mu', no))

    def _mentions(self, n, pref, seen=None):
        if seen is None:
            seen = set()
        if n in seen:
            return False
        seen.add(n)
        k = E.node(n)
        if k[0] == 'ite':
            return self._mentions(k[2], pref, seen) or self._mentions(k[3], pref, seen)
        return self._mentions_p(k[1], pref, seen)

    def _mentions_p(self, p, pref, seen):
        if p[0] == 'sym':
            return isinstance(p[1], tuple) and p[1][:2] == pref
        if p[0] == 'num':
            return any(self._mentions(a, pref, seen) for m, _ in p[1] for a, _e in m)

        def walk(x):
            if isinstance(x, bool) or x is None:
                return False
            if isinstance(x, int):
                return 0 <= x < len(E._nodes) and self._mentions(x, pref, seen)
            if isinstance(x, tuple):
                return any(walk(y) for y in x)
            return False
        if p[0] == 'proj':
            if self._mentions(p[1], pref, seen):
                return True
            return isinstance(p[2], tuple) and p[2][0] == 'i' and self._mentions(p[2][1], pref, seen)
        if p[0] == 'app':
            return walk(p[2])
        if p[0] == 'ptr':
            if p[1][0] == 'H' and self._mentions(p[1][1], pref, seen):
                return True
            return any(isinstance(k, tuple) and k[0] == 'i' and self._mentions(k[1], pref, seen) for k in p[2])
        if p[0] == 'agg':
            return any(self._mentions(v, pref, seen) for _, v in p[3])
        if p[0] in ('upd', 'flags'):
            if p[1] is not None and self._mentions(p[1], pref, seen):
                return True
            return any(self._mentions(v, pref, seen) for _, v in p[2])
        return False

    def flagbit(self, v, bit):
        def f(x):
            p = payload(x)
            if x == BOTTOM:
                return BOTTOM
            if p[0] == 'flags':
                for k, b in p[2]:
                    if k == bit:
                        return b
                return E.flag_atom(p[1], bit)
            return E.flag_atom(x, bit)
        return self._leafwise(v, f)

    def muname(self, fr, root, path, no, k):
        if root[0] == 'L':
            nm = None
            if root[1] == fr.id:
                nm = fr.body['locals'][root[2]][1]
            return (nm or '_%d' % k) + ''.join('.' + E.showkey(x) for x in path)
        return E.showloc(root, path)

    def mulike(self, sym, init, nxt):
        def first(v):
            while not is_term(v):
                v = E.node(v)[2]
            return payload(v)
        pi, pn = first(init), first(nxt)
        p = pi
        if pi[0] in self.RAW and pn[0] not in self.RAW:
            p = pn
        if p[0] in ('true', 'false'):
            return E.boolsym(sym)
        if p[0] == 'num':
            return E.num(E.patom(sym))
        if p[0] == 'ptr':
            return term(('ptr', ('H', sym), ()))
        if p[0] == 'flags':
            return term(('flags', sym, ()))
        return sym

    def diff(self, h, n, path):
        """access paths at which two values differ (bounded to struct fields; an array is one location)."""
        if h == n:
            return []
        if is_term(h) and is_term(n):
            ph, pn = payload(h), payload(n)
            if ph[0] == 'agg' and pn[0] == 'agg' and ph[1:3] == pn[1:3] and [k for k, _ in ph[3]] == [k for k, _ in pn[3]] and ph[1] != 'vec' and ph[2] is None:
                out = []
                for (k, a), (_, b) in zip(ph[3], pn[3]):
                    out += self.diff(a, b, path + (k,))
                return out

            def split(p, x):
                if p[0] == 'upd':
                    return p[1], dict(p[2])
                return x, {}
            bh, uh = split(ph, h)
            bn, un = split(pn, n)
            if bh == bn and (uh or un):
                keys = [k for k in set(uh) | set(un) if uh.get(k) != un.get(k)]
                if any(isinstance(k, tuple) for k in keys):
                    return [path]
                out = []
                for k in keys:
                    a = uh.get(k)
                    b = un.get(k)
                    if a is None:
                        a = self._field(bh, k)
                    if b is None:
                        b = self._field(bh, k)
                    a, b = self._align(a, b)
                    out += self.diff(a, b, path + (k,)) or []
                return out
        return [path]

    def _line(self, fr, b):
        bl = fr.body['blocks'][b]
        for s in bl['s']:
            if s[0] == '=':
                return s[-1]
        t = bl['t']
        if t[0] == 'call':
            return t[5]
        if t[0] == 'switch':
            return t[5]
        return 0

    def cond(self, v, val, ty):
        d = self.P.types[ty]
        if d['s'] == 'bool':
            return v if val else NOT(v)
        return E.eqnum(v, E.const(val))

    def exec_block(self, fr, b, st, emit, outs):
        bl = fr.body['blocks'][b]
        for s in bl['s']:
            if s[0] == '=':
                v = self.rvalue(fr, st, s[2], s[1]['t'])
                self.write_place(fr, st, s[1], v, s[3])
            elif s[0] == 'dead':
                pass
            elif s[0] == 'sd':
                self.set_discr(fr, st, s)
            elif s[0] == 'intr':
                pass
        t = bl['t']
        k = t[0]
        cfg = fr.cfg
        if k == 'goto':
            emit(t[1], st)
        elif k == 'return':
            outs.setdefault('ret', []).append(st)
        elif k == 'drop':
            emit(t[2], st)
        elif k == 'assert':
            c = self.operand(fr, st, t[1])
            if not t[2]:
                c = NOT(c)
            self.panic(fr, st, NOT(c), 'assert ' + str(t[3])[:60], t[5])
            emit(t[4], st)
        elif k == 'switch':
            v = self.operand(fr, st, t[1])
            ty = self.P.subst(t[4], fr.sub)
            ty = self.P.peel(ty)
            rest = TRUE
            arms = []
            for val, tgt in t[2]:
                c = self.cond(v, val, ty)
                arms.append((AND(rest, c), tgt))
                rest = AND(rest, NOT(c))
            if t[3] is not None and t[3] != -1:
                arms.append((rest, t[3]))
            live = [(c, x) for c, x in arms if x in cfg.returns]
            dead = [(c, x) for c, x in arms if x not in cfg.returns]
            if not live:
                for c, x in dead:
                    self.panic(fr, st, c, 'diverges', t[5])
                return
            feasible_dead = FALSE
            for c, x in dead:
                if fr.body['blocks'][x]['t'][0] == 'unreachable':
                    feasible_dead = OR(feasible_dead, c)
                    continue
                if AND(st.pc, c) != FALSE:
                    self.panic(fr, st, c, 'branch to panic', t[5], self._diverge_msg(fr, x))
                    feasible_dead = OR(feasible_dead, c)
            # group by target
            tg = {}
            for c, x in live:
                tg[x] = OR(tg.get(x, FALSE), c)
            if len(tg) == 1:
                emit(next(iter(tg)), st)
                return
            for x, c in tg.items():
                if feasible_dead != FALSE:
                    c = E.constrain(c, NOT(feasible_dead))
                pc = AND(st.pc, c)
                if pc == FALSE:
                    continue
                s2 = st.copy()
                s2.pc = pc
                emit(x, s2)
        elif k == 'call':
            self.call(fr, b, st, t, emit)
        elif k in ('unreachable', 'resume', 'abort'):
            pass
        else:
            raise Unsupported('terminator ' + k)

    def _diverge_msg(self, fr, b):
        seen = set()
        while b not in seen:
            seen.add(b)
            t = fr.body['blocks'][b]['t']
            if t[0] == 'call':
                return t[1].get('fn')
            s = fr.cfg.succ[b]
            if not s:
                return t[0]
            b = s[0]
        return None

    def panic(self, fr, st, c, what, line, msg=None):
        g = AND(st.pc, c)
        if g == FALSE:
            return
        self.effects.append(Effect('panic', g, fr.path, line, name=what if not msg else '%s (%s)' % (what, msg)))
        st.assume = AND(st.assume, NOT(g))

    def set_discr(self, fr, st, s):
        pl, vi = s[1], s[2]
        t = self.P.peel(self.P.subst(pl['t'], fr.sub))
        d = self.P.types[t]
        if d['p'] in self.P.adts:
            vn = self.P.adts[d['p']]['v'][vi]['n']
        else:
            vn = self.STD_ENUMS[d['p']][vi]
        self.write_place(fr, st, pl, term(('agg', d['p'], vn, ())), s[-1])

    # ------------------------------------------------------------------ calls
    def call(self, fr, b, st, t, emit):
        _, fop, aops, dest, target, line, _u = t
        self.stats['calls'] += 1
        args = [self.operand(fr, st, a) for a in aops]
        tys = [self._optype(fr, a) for a in aops]
        dt = self.P.subst(dest['t'], fr.sub)
        if target == -1 or target not in fr.cfg.returns:
            self.effects.append(Effect('panic', st.pc, fr.path, line, name='call ' + str(fop.get('fn'))))
            return
        v = self.do_call(fr, st, fop, args, tys, dt, line)
        if st.pc == FALSE:
            return
        self.write_place(fr, st, dest, v, line)
        emit(target, st)

    def do_call(self, fr, st, fop, args, tys, dt, line):
        P = self.P
        if 'fn' not in fop:
            return self.indirect(fr, st, fop, args, tys, dt, line)
        sub = fr.sub
        name = canon_path(fop.get('r') or fop['fn'])
        uid = fop.get('ruid')
        ga = [P.subst(x, sub) if isinstance(x, int) else x for x in fop.get('ga', [])]
        rga = [P.subst(x, sub) if isinstance(x, int) else x for x in fop.get('rga', fop.get('ga', []))]
        if uid not in P.fns or fop.get('virt'):
            if fop.get('trait'):
                st_ty = ga[0] if ga and isinstance(ga[0], int) else None
                if st_ty is not None:
                    # method on a trait object or a generic parameter now known
                    r = None
                    d = P.types[st_ty]
                    while d['k'] in ('ref',) and P.impls_of(fop['fnuid']):
                        st_ty = d['t']
                        d = P.types[st_ty]
                    r = P.resolve_trait(fop['fnuid'], st_ty) if P.impls_of(fop['fnuid']) else None
                    if d['k'] == 'adt' and r is None and fop['fnuid'] in P.fns:
                        r = fop['fnuid']
                    if r is not None:
                        uid = r
                        name = P.fns[uid]['path'] if uid in P.fns else name
                        rga = self.infer_impl_args(uid, st_ty, ga)
                    else:
                        uid = None
                        name = canon_path(fop['fn'])
        for h in (self.hooks.get(name), self.hooks.get(canon_path(fop['fn']))):
            if h is not None:
                r = h(self, fr, st, args, tys, dt, line, fop)
                if r is not None:
                    return r
        f = P.fns.get(uid)
        if f is not None:
            bf = self.bitflags_call(fr, st, f, args, tys, line)
            if bf is not None:
                return bf
            if f['kind'] == 'closure' and len(args) == 2:
                tup = payload(args[1]) if is_term(args[1]) else None
                r = self.call_closure(fr, st, args[0], [v for _, v in tup[3]] if tup and tup[0] == 'agg' else [args[1]], dt, line)
                if r is not None:
                    return r
            if f['kind'] != 'closure' and not self.opaque(f['path'], uid) and fr.depth < self.max_depth and uid not in self.stack:
                gmap = {}
                for g, a in zip(f.get('generics', []), rga):
                    if g and isinstance(a, int):
                        gmap[g] = a
                return self.inline_call(fr, st, f, args, gmap)
            return self.opaque_call(fr, st, f['path'], uid, args, tys, dt, line)
        for key in (name, canon_path(fop['fn'])):
            m = self.models.get(key)
            if m is not None:
                r = m(self, fr, st, args, tys, dt, line, ga)
                if r is not NotImplemented:
                    return r
        if fop.get('trait') and (P.impls_of(fop['fnuid']) or fop['trait'] in P.traits):
            return self.virtual_call(fr, st, fop, args, tys, dt, line)
        self.unmodelled.add(name)
        return self.opaque_call(fr, st, name, None, args, tys, dt, line)

    def infer_impl_args(self, uid, st_ty, ga):
        """generic arguments of an impl method from the concrete self type."""
        f = self.P.fns.get(uid)
        if f is None:
            return []
        names = f.get('generics', [])
        out = {}
        if 'self' in f:
            self._unify(f['self'], st_ty, out)
        res = []
        extra = list(ga[1:])
        for n in names:
            res.append(out.get(n, None))
        return res

    def _unify(self, a, b, out):
        x, y = self.P.types[a], self.P.types[b]
        if x['k'] == 'param':
            out[x['n']] = b
        elif x['k'] == y['k'] == 'adt' and x['p'] == y['p']:
            for i, j in zip(x.get('a', []), y.get('a', [])):
                if isinstance(i, int) and isinstance(j, int):
                    self._unify(i, j, out)
        elif x['k'] == y['k'] == 'dyn':
            pass

    def inline_call(self, fr, st, f, args, gmap):
        nf = self.new_frame(f, f, gmap, f['path'], fr.depth + 1)
        self.inlined.add(f['uid'])
        for i, a in enumerate(args):
            st.mem[('L', nf.id, i + 1)] = a
        self.stack.append(f['uid'])
        try:
            entry_pc = st.pc
            v = self.run_body(nf, st)
            if st.pc != FALSE:
                # control always comes back here unless it panicked
                if st.pc != entry_pc:
                    st.pc = entry_pc if self._only_loop_atoms(st.pc, entry_pc) else st.pc
        finally:
            self.stack.pop()
        keep = self._reaches(st, v, nf.id)
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == nf.id and r not in keep]:
            del st.mem[r]
        return v

    def _only_loop_atoms(self, pc, entry):
        return True

    def _reaches(self, st, v, fid):
        """locals of a finished frame still referenced (promoted constants)."""
        out = set()

        def go(n, seen):
            if n in seen:
                return
            seen.add(n)
            k = E.node(n)
            if k[0] == 'ite':
                go(k[2], seen)
                go(k[3], seen)
                return
            p = k[1]
            if p[0] == 'ptr' and p[1][0] == 'L':
                r = p[1]
                if r not in out:
                    out.add(r)
                    if r in st.mem:
                        go(st.mem[r], seen)
            elif p[0] == 'agg':
                for _, x in p[3]:
                    go(x, seen)
            elif p[0] == 'upd':
                for _, x in p[2]:
                    go(x, seen)
        go(v, set())
        return out

    def fresh_call(self, name, t):
        n = self.ncalls.get(name, 0) + 1
        self.ncalls[name] = n
        return self.coerce(self.sym('ret', name, n), t), n

    def reaching(self, mods, tys):
        """a mod set restricted to what the argument types can reach through interior mutability."""
        m = Mods(mods)
        reach = set()
        for t in tys:
            r = self.P.cell_reach(t)
            if r is None:
                reach = None
                break
            reach |= r
        m.reach = reach if reach is None else frozenset(reach)
        return m

    def opaque_call(self, fr, st, name, uid, args, tys, dt, line, mods=None):
        self.opaqued.add(name)
        v, n = self.fresh_call(name, dt)
        eff = Effect('call', st.pc, fr.path, line, name=name, args=args, ret=v, mem=dict(st.mem), argtys=tys, info={'uid': uid})
        self.effects.append(eff)
        if mods is None:
            mods = self.P.mods(uid) if uid else frozenset()
        mods = self.reaching(mods, tys)
        if mods:
            self.havoc(st, mods, (name, n))
        for a, t in zip(args, tys):
            self.havoc_arg(fr, st, a, t, mods, (name, n), uid is None)
        return v

    def havoc_arg(self, fr, st, a, t, mods, no, ext):
        """forget what a callee may write through an explicit &mut argument into caller-local storage."""
        P = self.P
        d = P.types[P.peel(t)]
        if not (d['k'] == 'ref' and d.get('m') or d['k'] == 'adt' and d['p'] == 'std::cell::RefMut'):
            return
        pt = P.pointee(t)
        for c, x in ([(TRUE, a)] if is_term(a) else E.leaves(a)):
            p = payload(x)
            if p[0] != 'ptr':
                continue
            if p[1][0] == 'H' and not ext and p[2] == () and self.in_reach(pt, mods):
                continue       # already covered by the mod set
            old = self.load(st, x)
            pd = P.types[pt]
            if pd['k'] == 'adt' and pd['p'] in P.adts and not P.adts[pd['p']]['enum'] and not ext:
                new = self.havoc_value(old, pt, mods, ('hva', no, x))
            elif pd['k'] == 'dyn' and not ext:
                continue
            else:
                new = self.coerce(term(('app', 'hv', ('hva', no, x))), pt)
            if new != old:
                save = self.log_writes
                self.log_writes = False
                self.store(st, x, new if c == TRUE else ite(c, new, self._like(old, new)), fr)
                self.log_writes = save

    def virtual_call(self, fr, st, fop, args, tys, dt, line):
        P = self.P
        name = fop['fn']
        tr = fop['trait']
        meth = name.split('::')[-1]
        if meth in ('get_base', 'get_base_mut') and args:
            return self.extend(args[0], 'base')
        if meth == 'clone_rc' or meth == 'clone_box':
            pass
        mods = set()
        for _, u, _im in P.impls_of(fop['fnuid']):
            mods |= P.mods(u)
        if fop['fnuid'] in P.fns:
            mods |= P.mods(fop['fnuid'])
        v, n = self.fresh_call(name, dt)
        mods = self.reaching(mods, tys)
        self.opaqued.add(name)
        self.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=args, ret=v, mem=dict(st.mem), argtys=tys, info={'uid': fop['fnuid'], 'virtual': True}))
        user = not P.impls_of(fop['fnuid'])
        if mods:
            self.havoc(st, mods, (name, n))
        for a, t in zip(args, tys):
            if user:
                self.havoc_user(fr, st, a, t, (name, n))
            else:
                self.havoc_arg(fr, st, a, t, mods, (name, n), False)
        return v

    def havoc_user(self, fr, st, a, t, no):
        """user callback: anything behind a &mut argument may change through the public API."""
        P = self.P
        d = P.types[P.peel(t)]
        if not (d['k'] == 'ref' and d.get('m')):
            return
        pt = P.pointee(t)
        pd = P.types[pt]
        if pd['k'] == 'dyn' and 'B2contactDynTrait' in pd.get('p', ''):
            # the public contact API can change flags, friction, restitution, tangent speed, manifold
            b = self.extend(a, 'base')
            for f in ('m_flags', 'm_friction', 'm_restitution', 'm_restitution_threshold', 'm_tangent_speed', 'm_manifold'):
                ptr = self.extend(b, f)
                ft = P.field_type(P.intern_adt('b2_contact::B2contact'), f) if hasattr(P, 'intern_adt') else None
                old = self.load(st, ptr)
                new = term(('app', 'user', (no, f)))
                new = E.like(new, old) if not (is_term(old) and payload(old)[0] in self.RAW) else new
                if is_term(old) and payload(old)[0] == 'flags' or f == 'm_flags':
                    new = term(('flags', new if payload(new)[0] in self.RAW else self.sym('user', no), ()))
                save = self.log_writes
                self.log_writes = False
                self.store(st, ptr, new, fr)
                self.log_writes = save

    def indirect(self, fr, st, fop, args, tys, dt, line):
        f = self.operand(fr, st, fop)
        p = payload(f) if is_term(f) else None
        if p and p[0] == 'fn':
            uid = eval(p[1])
            if uid in self.P.fns and not self.opaque(self.P.fns[uid]['path'], uid):
                return self.inline_call(fr, st, self.P.fns[uid], args, {})
        v, n = self.fresh_call('<indirect>', dt)
        self.effects.append(Effect('call', st.pc, fr.path, line, name='<indirect>', args=[f] + list(args), ret=v, mem=dict(st.mem), argtys=tys, info={'uid': None}))
        for a, t in zip(args, tys):
            self.havoc_arg(fr, st, a, t, frozenset(), ('<indirect>', n), True)
        return v

    def call_closure(self, fr, st, clo, args, dt, line, by_ptr=None):
        """call a closure value (or pointer to one); None when it is not statically known."""
        v = clo
        hops = 0
        ptr = by_ptr
        while is_term(v) and payload(v)[0] == 'ptr' and hops < 4:
            ptr = v
            v = self.load(st, v)
            hops += 1
        p = payload(v) if is_term(v) else None
        if p and p[0] == 'fn':
            uid = eval(p[1])
            if uid in self.P.fns and not self.opaque(self.P.fns[uid]['path'], uid):
                return self.inline_call(fr, st, self.P.fns[uid], args, {})
            m = self.models.get(canon_path(uid))
            return None
        if not (p and p[0] == 'agg' and isinstance(p[1], tuple) and p[1][0] == 'closure'):
            return None
        f = self.P.fns.get(p[1][1])
        if f is None or f['uid'] in self.stack:
            return None
        selft = self.P.types[f['locals'][1][0]] if f['argc'] >= 1 else None
        if selft and selft['k'] == 'ref':
            if ptr is None:
                self.nalloc += 1
                root = ('N', 'clo', self.nalloc)
                st.mem[root] = v
                ptr = term(('ptr', root, ()))
            a0 = ptr
        else:
            a0 = v
        return self.inline_call(fr, st, f, [a0] + list(args), dict(fr.sub))

    BF = {'contains', 'insert', 'remove', 'set', 'toggle', 'intersects', 'is_empty', 'empty', 'all', 'union', 'bitor', 'bitand', 'bitor_assign', 'bits', 'clone', 'eq', 'ne', 'default',
          'from_bits_truncate', 'from_bits', 'difference', 'complement', 'intersection', 'not', 'bitand_assign', 'sub', 'sub_assign', 'is_all', 'bitxor', 'bitxor_assign', 'symmetric_difference', 'from_bits_retain'}

    def bitflags_call(self, fr, st, f, args, tys, line):
        P = self.P
        if 'self' not in f:
            return None
        a = P.adt_of(f['self'])
        if a not in P.bitflag_adts or f['name'] not in self.BF:
            return None
        n = f['name']

        def val(i):
            t = P.types[P.peel(tys[i])]
            v = args[i]
            if t['k'] == 'ref':
                v = self.load(st, v, t['t'])
            return v

        def bits(v):
            p = payload(v)
            if p[0] != 'flags' or p[1] is not None:
                return None
            return dict(p[2])

        def setbits(v, upd):
            def g(x):
                p = payload(x)
                if p[0] != 'flags':
                    return x
                d = dict(p[2])
                d.update(upd(p[1], d))
                return E.mk_flags(p[1], sorted(d.items()))
            return self._leafwise(v, g)
        if n == 'empty' or n == 'default':
            return term(('flags', None, ()))
        if n == 'clone':
            return val(0)
        if n == 'is_empty':
            v = val(0)
            if is_term(v) and payload(v)[0] == 'flags' and payload(v)[1] is None:
                r = FALSE
                for _, b in payload(v)[2]:
                    r = OR(r, b)
                return NOT(r)
            return E.boolsym(term(('app', 'flags_empty', (v,))))
        if n in ('contains', 'intersects'):
            v, o = val(0), val(1)
            ob = bits(o) if is_term(o) else None
            if ob is None:
                return E.boolsym(term(('app', 'flags_' + n, (v, o))))
            r = TRUE if n == 'contains' else FALSE
            for k, b in ob.items():
                h = self.flagbit(v, k)
                r = AND(r, OR(NOT(b), h)) if n == 'contains' else OR(r, AND(b, h))
            return r
        if n in ('insert', 'remove', 'toggle', 'set', 'bitor_assign', 'sub_assign', 'bitxor_assign'):
            o = val(1)
            ob = bits(o) if is_term(o) else None
            if ob is None:
                return None
            cur = self.load(st, args[0], P.types[P.peel(tys[0])]['t'])
            val_b = {'insert': TRUE, 'bitor_assign': TRUE, 'remove': FALSE, 'sub_assign': FALSE}.get(n)
            if n == 'set':
                val_b = args[2]
            new = {}
            if n in ('toggle', 'bitxor_assign'):
                for k in ob:
                    new[k] = NOT(self.flagbit(cur, k))
            else:
                for k in ob:
                    new[k] = val_b
            v = setbits(cur, lambda base, d: new)
            self.store(st, args[0], v, fr, line)
            return UNIT
        if n in ('union', 'bitor', 'difference', 'sub'):
            a0, o = val(0), val(1)
            ob = bits(o) if is_term(o) else None
            if ob is None:
                a0, o = o, a0
                ob = bits(o) if is_term(o) else None
                if ob is None or n in ('difference', 'sub'):
                    return None
            return setbits(a0, lambda base, d: {k: (TRUE if n in ('union', 'bitor') else FALSE) for k in ob})
        if n in ('eq', 'ne'):
            a0, b0 = val(0), val(1)
            r = E.boolsym(term(('app', 'flags_eq', tuple(sorted((a0, b0)))))) if a0 != b0 else TRUE
            return r if n == 'eq' else NOT(r)
        return None

    # ------------------------------------------------------------------ entry point
    def default_args(self, f, names=None, sub=None):
        out = []
        for i in range(f['argc']):
            t, nm = f['locals'][i + 1]
            nm = (names[i] if names else None) or nm or 'arg%d' % i
            nm = {'self_': 'self'}.get(nm, nm)
            s = self.sym(nm)
            v = self.wrap(s, self.P.subst(t, sub or {}))
            out.append(v)
        return out

    def analyse(self, f, args=None, names=None, sub=None, state=None):
        if isinstance(f, str):
            f = self.P.fn(f)
        st = state or State()
        nf = self.new_frame(f, f, sub or {}, f['path'], 0)
        args = args if args is not None else self.default_args(f, names, sub)
        for i, a in enumerate(args):
            st.mem[('L', nf.id, i + 1)] = a
            t = self.P.subst(f['locals'][i + 1][0], sub or {})
            pt = self.P.pointee(t)
            if pt is not None and is_term(a) and payload(a)[0] == 'ptr' and payload(a)[2] == ():
                self.root_content(st, payload(a)[1], pt)
        self.stack.append(f['uid'])
        self.frame0 = nf
        ret = self.run_body(nf, st)
        self.stack.pop()
        return Result(self, f, args, ret, st)


class Result:
    def __init__(self, eng, f, args, ret, st):
        self.eng, self.f, self.args, self.ret, self.st = eng, f, args, ret, st
        self.effects = eng.effects

    def get(self, ptr, *path, t=None, mem=None):
        """value at ptr.path in the exit state (or a given memory)."""
        st = State(dict(mem), TRUE) if mem is not None else State(dict(self.st.mem), TRUE, TRUE, self.st.hv)
        for k in path:
            ptr = self.eng.extend(ptr, k)
        return self.eng.load(st, ptr, t)

    def flat(self, effects=None, kinds=None, depth=0):
        """all effects in order, descending into loops; yields (effect, loop stack)."""
        def go(es, stack):
            for e in es:
                if kinds is None or e.kind in kinds:
                    yield e, stack
                if e.kind == 'loop':
                    yield from go(e.sub, stack + (e,))
        yield from go(self.effects if effects is None else effects, ())

    def value(self, v, keys=(), like=None, mem=None):
        """component of a value; pointers are followed into the exit memory."""
        st = State(dict(self.st.mem if mem is None else mem), TRUE, TRUE, self.st.hv)

        def f(x):
            if payload(x)[0] == 'ptr':
                for k in keys:
                    x = self.eng.extend(x, k)
                return self.eng.load(st, x)
            for k in keys:
                x = self.eng.field(x, k)
            return x
        return f(v) if is_term(v) else self.eng._leafwise(v, f)
