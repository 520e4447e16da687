"""Index over the compiler facts: functions, types, impls, control-flow structure, mod sets."""
import re

from . import facts as _facts

STD_ALIASES = (('bitflags::__private::core::', 'std::'), ('core::', 'std::'), ('alloc::', 'std::'))

PTR_ADTS = {'std::rc::Rc', 'std::rc::Weak', 'std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut', 'std::ptr::NonNull', 'std::ptr::Unique', 'std::sync::Arc', 'std::sync::Weak'}
CELL_ADTS = {'std::cell::RefCell', 'std::cell::Cell', 'std::cell::UnsafeCell', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::cell::OnceCell'}


def canon_path(p):
    for a, b in STD_ALIASES:
        if p.startswith(a):
            p = b + p[len(a):]
    return p.replace('bitflags::__private::core::', 'std::').replace('std::boxed::Box', 'std::boxed::Box')


class Cfg:
    """normal-flow graph of one body: successors, reverse post-order, loops, diverging blocks."""

    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = [self._succ(b['t']) for b in self.blocks]
        self.order = self._rpo()
        self.pos = {b: i for i, b in enumerate(self.order)}
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.returns = self._reach_return()
        self._dominators()
        self._loops()

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            out = []
            for _, x in t[2]:
                if x not in out:
                    out.append(x)
            if t[3] not in out and t[3] is not None and t[3] != -1:
                out.append(t[3])
            return out
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] != -1 else []
        if k == 'assert':
            return [t[4]]
        return []

    def _rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                st.pop()
                out.append(b)
        return out[::-1]

    def _reach_return(self):
        r = {b for b in self.order if self.blocks[b]['t'][0] == 'return'}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                if b not in r and any(s in r for s in self.succ[b]):
                    r.add(b)
                    ch = True
        return r

    def _dominators(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.pos[a] > self.pos[c]:
                            a = idom[a]
                        while self.pos[c] > self.pos[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.order:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    if not self.dominates(s, b):
                        raise ValueError('irreducible control flow')
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])


from . import desugar as _desugar


class Program:
    def __init__(self, cfg='base'):
        self.cfgname = cfg
        d = _facts.load(cfg)
        self.d = d
        self.hash = d['hash']
        self.fns = {f['uid']: f for f in d['fns']}
        self.types = list(d['types'])
        self._tyidx = {}
        for i, t in enumerate(self.types):
            self._tyidx.setdefault(self._tkey(t), i)
        for f in d['fns']:
            f.setdefault('name', f['path'].split('::')[-1])
        self.bypath = {}
        for f in d['fns']:
            self.bypath.setdefault(f['path'], []).append(f)
        self.adts = {a['p']: a for a in d['adts']}
        self.impls = d['impls']
        self.traits = {t['p']: t for t in d['traits']}
        self.consts = {c['uid']: c for c in d['consts']}
        self.statics = {s['uid']: s for s in d['statics']}
        self._cfgs = {}
        self._impl_items = {}   # traitItemUid -> [(self type idx, fn uid)]
        for im in self.impls:
            for name, uid, tuid in im['items']:
                if tuid:
                    self._impl_items.setdefault(tuid, []).append((im['self'], uid, im))
        self.bitflag_adts = set()
        for a in d['adts']:
            if not a['enum'] and len(a['v']) == 1 and len(a['v'][0]['f']) == 1:
                t = self.types[a['v'][0]['f'][0][1]]
                if 'InternalBitFlags' in t['s'] or 'PublicFlags' in t['s']:
                    self.bitflag_adts.add(a['p'])
        self._mod = None
        self.desugared = _desugar.rewrite(self)

    @staticmethod
    def _tkey(t):
        return t['s'] + '|' + t['k'] + '|' + repr(sorted((k, v) for k, v in t.items() if k not in ('s',)))

    # ------------------------------------------------------------ lookup
    def find(self, path, trait=None, self_ty=None):
        """the unique function with this definition path suffix (matching whole segments)."""
        c = []
        for f in self.d['fns']:
            p = re.sub(r'::<[^<>]*(<[^<>]*>[^<>]*)*>', '', f['path'])
            if p == path or p.endswith('::' + path):
                c.append(f)
        return c

    def fn(self, path):
        c = self.bypath.get(path)
        if c is None:
            c = self.find(path)
        if len(c) != 1:
            raise KeyError('anchor %r: %d candidates' % (path, len(c)))
        return c[0]

    def fns_named(self, name, file=None):
        return [f for f in self.d['fns'] if f.get('name') == name and (file is None or f['file'].endswith(file))]

    def cfg(self, body):
        k = id(body)
        c = self._cfgs.get(k)
        if c is None:
            c = Cfg(body)
            self._cfgs[k] = (c, body)
            return c
        return c[0]

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def intern(self, t):
        k = self._tkey(t)
        i = self._tyidx.get(k)
        if i is None:
            i = len(self.types)
            self.types.append(t)
            self._tyidx[k] = i
        return i

    def subst(self, i, sub):
        if not sub or i is None:
            return i
        t = self.types[i]
        k = t['k']
        if k == 'param':
            return sub.get(t['n'], i)
        if k == 'adt':
            a = [self.subst(x, sub) if isinstance(x, int) else x for x in t.get('a', [])]
            if a == t.get('a', []):
                return i
            n = dict(t)
            n['a'] = a
            n['s'] = t['p'] + '<' + ','.join(self.types[x]['s'] if isinstance(x, int) else str(x) for x in a) + '>'
            return self.intern(n)
        if k in ('ref', 'ptr', 'array', 'slice'):
            x = self.subst(t['t'], sub)
            if x == t['t']:
                return i
            n = dict(t)
            n['t'] = x
            n['s'] = k + ' ' + self.types[x]['s']
            return self.intern(n)
        if k == 'tuple':
            a = [self.subst(x, sub) for x in t['a']]
            if a == t['a']:
                return i
            n = dict(t)
            n['a'] = a
            n['s'] = '(' + ','.join(self.types[x]['s'] for x in a) + ')'
            return self.intern(n)
        return i

    def peel(self, i):
        """strip cells: RefCell<T> and friends are stored in place."""
        while True:
            t = self.types[i]
            if t['k'] == 'adt' and t['p'] in CELL_ADTS and t.get('a'):
                i = t['a'][0]
            else:
                return i

    def pointee(self, i):
        """type behind a pointer-like type, or None."""
        i = self.peel(i)
        t = self.types[i]
        if t['k'] in ('ref', 'ptr'):
            return self.peel(t['t'])
        if t['k'] == 'adt' and t['p'] in PTR_ADTS and t.get('a'):
            return self.peel(t['a'][0])
        return None

    def tname(self, i):
        return self.types[i]['s']

    def adt_of(self, i):
        if i is None:
            return None
        t = self.types[self.peel(i)]
        return t['p'] if t['k'] == 'adt' else None

    def field_type(self, i, fname, variant=0):
        """type of a struct field with the generic arguments substituted."""
        i = self.peel(i)
        t = self.types[i]
        if t['k'] != 'adt' or t['p'] not in self.adts:
            return None
        a = self.adts[t['p']]
        for f in a['v'][variant]['f']:
            if f[0] == fname:
                gt = self.types[a['ty']] if a.get('ty') is not None else None
                sub = {}
                if gt and gt.get('a'):
                    for x, y in zip(gt['a'], t.get('a', [])):
                        if isinstance(x, int) and self.types[x]['k'] == 'param':
                            sub[self.types[x]['n']] = y
                return self.subst(f[1], sub)
        return None

    # ------------------------------------------------------------ trait resolution
    def impls_of(self, trait_item_uid):
        return self._impl_items.get(trait_item_uid, [])

    def resolve_trait(self, trait_item_uid, self_ty, trait_path=None, name=None):
        """uid of the impl method for a concrete self type (ADT match), or None."""
        t = self.types[self_ty]
        if t['k'] == 'dyn':
            # an inherent method on the trait object type itself, otherwise virtual
            for st, uid, im in self.impls_of(trait_item_uid):
                if self.types[st]['k'] == 'dyn' and self.types[st].get('p') == t.get('p'):
                    return uid
            return None
        best = None
        for st, uid, im in self.impls_of(trait_item_uid):
            s = self.types[st]
            if s['k'] == 'adt' and t['k'] == 'adt' and s['p'] == t['p']:
                return uid
            if s['k'] == 'param':
                best = uid
            if s['k'] == 'prim' and t['k'] == 'prim' and s['s'] == t['s']:
                return uid
        return best

    # ------------------------------------------------------------ call graph
    def callee_uids(self, f):
        """[(site line, kind, uid or path)] of all non-cleanup calls in a function; virtual calls fan out to every impl."""
        out = []
        for b in f['blocks']:
            if b['c'] or b['t'][0] != 'call':
                continue
            out.extend((b['t'][5], k, u) for k, u in self.callees_of_op(b['t'][1]))
        # closures created here count as callable from here
        for b in f['blocks']:
            if b['c']:
                continue
            for s in b['s']:
                if s[0] == '=' and s[2].get('k') == 'agg' and s[2].get('ak') == 'closure':
                    out.append((s[3], 'closure', s[2]['u']))
        return out

    def callees_of_op(self, op):
        if 'fn' not in op:
            return [('indirect', None)]
        if 'ruid' in op and op['ruid'] in self.fns and not op.get('virt'):
            u = op['ruid']
            f = self.fns[u]
            # resolved to a trait's provided method on an unknown self: fan out too
            return [('direct', u)]
        if op.get('trait'):
            im = self.impls_of(op['fnuid'])
            if im:
                out = [('virtual', u) for _, u, _ in im]
                if op['fnuid'] in self.fns:
                    out.append(('virtual', op['fnuid']))
                return out
            if op['fnuid'] in self.fns:
                return [('virtual', op['fnuid'])]
        return [('ext', canon_path(op.get('r') or op['fn']))]

    def reachable(self, roots, stop=()):
        seen, st = set(), list(roots)
        while st:
            u = st.pop()
            if u in seen or u not in self.fns or u in stop:
                continue
            seen.add(u)
            for _, k, v in self.callee_uids(self.fns[u]):
                if v in self.fns:
                    st.append(v)
        return seen

    # ------------------------------------------------------------ mod sets
    def direct_mods(self, f):
        """{(owner adt, field)} possibly written through a pointer by this body."""
        out = set()

        def place(pl, line, borrow=False):
            pr = pl['p']
            last = -1
            for i, x in enumerate(pr):
                if x[0] == '*':
                    last = i
            if last < 0:
                return
            fld = None
            for x in pr[last + 1:]:
                if x[0] == 'f' and x[2]:
                    fld = (x[2], x[1])
            if fld is None:
                # whole-object store through a pointer
                if not borrow:
                    a = self.adt_of(pl['t'])
                    out.add((a or self.tname(pl['t']), '*'))
                return
            if borrow:
                a = self.adt_of(pl['t'])
                if a in self.adts and not self.adts[a]['enum'] and a not in self.bitflag_adts:
                    return
            out.add(fld)
        for b in f['blocks']:
            if b['c']:
                continue
            for s in b['s']:
                if s[0] in ('=', 'sd'):
                    place(s[1], s[-1])
                    if s[0] == '=' and s[2].get('k') == 'ref' and s[2].get('bk') == 'mut':
                        place(s[2]['pl'], s[-1], True)
            t = b['t']
            if t[0] == 'call':
                place(t[3], t[5])
        return out

    def mods(self, uid):
        """transitive mod set of a function (virtual calls fan out, closures included)."""
        if self._mod is None:
            self._build_mods()
        return self._mod.get(uid, frozenset())

    def _build_mods(self):
        direct, calls = {}, {}
        for u, f in self.fns.items():
            direct[u] = self.direct_mods(f)
            calls[u] = {v for _, _, v in self.callee_uids(f) if v in self.fns}
        mod = {u: set(s) for u, s in direct.items()}
        rev = {}
        for u, cs in calls.items():
            for v in cs:
                rev.setdefault(v, set()).add(u)
        work = set(mod)
        while work:
            v = work.pop()
            for u in rev.get(v, ()):
                n = len(mod[u])
                mod[u] |= mod[v]
                if len(mod[u]) != n:
                    work.add(u)
        self._mod = {u: frozenset(s) for u, s in mod.items()}

    # ------------------------------------------------------------ interior mutability
    def cell_reach(self, t):
        """names of the types stored in Cell/RefCell reachable from a value of type t (None: unknown)."""
        if not hasattr(self, '_cr'):
            self._cr = {}
        if t in self._cr:
            return self._cr[t]
        out, seen, work, unknown = set(), set(), [t], False

        def name(x):
            d = self.types[self.peel(x)]
            return d['p'] if d['k'] == 'adt' else 'dyn ' + str(d.get('p')) if d['k'] == 'dyn' else d.get('s')
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            d = self.types[x]
            k = d['k']
            if k in ('array', 'slice', 'ref', 'ptr'):
                work.append(d['t'])
            elif k == 'tuple':
                work.extend(d['a'])
            elif k == 'adt':
                if d['p'] in CELL_ADTS:
                    for a in d.get('a', []):
                        if isinstance(a, int):
                            out.add(name(a))
                if d['p'] in self.adts:
                    if len(seen) > 4000:
                        unknown = True
                        break
                    for vi, v in enumerate(self.adts[d['p']]['v']):
                        for n, ft, _ in v['f']:
                            it = self.field_type(x, n, vi)
                            it = ft if it is None else it
                            fd = self.types[it]
                            if fd['k'] == 'adt' and fd['p'] in CELL_ADTS:
                                out.add(d['p'])
                            work.append(it)
                else:
                    work.extend(a for a in d.get('a', []) if isinstance(a, int))
            elif k == 'dyn':
                tr = d.get('p')
                ims = [im for im in self.impls if im.get('trait') == tr]
                if not ims:
                    unknown = True
                    break
                for im in ims:
                    work.append(im['self'])
                    if ('dyn ' + str(tr)) in out:
                        out.add(name(im['self']))
            elif k == 'closure' and d.get('up') is not None:
                work.extend(d['up'])
            elif k in ('prim', 'param', 'never', 'fndef', 'str'):
                pass
            elif k == 'other' and not any(w in d.get('s', '') for w in ('closure', 'dyn', 'fn')):
                pass
            else:
                unknown = True
                break
        r = None if unknown else frozenset(out)
        self._cr[t] = r
        return r
