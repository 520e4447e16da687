"""Repeatability: nothing but the arguments and the objects themselves influences a result.

Forward provenance analysis over MIR: values coming from the clock, from counters shared between worlds, from object addresses,
hash seeds, the environment or other threads are followed through assignments, calls, returns and fields, and may end
only in timing and statistics."""
import json

from ..check import AnchorMissing

TIMING = ('B2Profile', 'B2timer')
FORBIDDEN = ('std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::sync::mpsc', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'std::io::Read', 'std::io::stdin',
             'std::hash::RandomState', 'std::collections::hash', 'std::collections::HashMap', 'std::collections::HashSet', 'rand::', 'getrandom::', 'std::random')
FORBIDDEN_TYPES = ('std::collections::HashMap', 'std::collections::HashSet', 'std::hash::RandomState', 'std::thread::LocalKey', 'std::cell::OnceCell', 'std::mem::MaybeUninit')
CLOCK = ('std::time::',)
ADDRESS = ('std::ptr::const_ptr::<impl *const T>::addr', 'std::ptr::addr', 'std::rc::Rc::<T>::as_ptr', 'std::rc::Rc::<T, A>::as_ptr', 'std::rc::Weak::<T>::as_ptr', 'std::rc::Weak::<T, A>::as_ptr')
PTR_CASTS = ('PointerExposeProvenance', 'PtrToInt', 'PointerExposeAddress', 'FnPtrToPtr')


def norm(p):
    for a, b in (('core::', 'std::'), ('alloc::', 'std::')):
        if p.startswith(a):
            return b + p[len(a):]
    return p


class Flow:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.exempt = {p for p in P.adts if p.split('::')[-1] in TIMING}
        self.t = {}          # function uid -> tainted locals
        self.refs = {}       # function uid -> local -> static it names
        self.ret = set()     # functions returning a tainted value
        self.param = {}      # uid -> tainted parameter locals
        self.bad = {}
        self.sources = 0
        self.writes = {}     # static -> kinds of access

    def report(self, f, what):
        self.bad.setdefault(f['path'], set()).add(what)

    def statics(self, f):
        """locals that hold a reference to a static item."""
        out = {}
        ch = True
        while ch:
            ch = False
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] != '=' or s[1]['p']:
                        continue
                    r, l = s[2], s[1]['l']
                    n = None
                    if r['k'] == 'use' and str(r['a'].get('d', '')).startswith('static '):
                        n = r['a']['d'][7:]
                    elif r['k'] in ('use', 'cast') and 'pl' in r['a'] and r['a']['pl']['l'] in out:
                        n = out[r['a']['pl']['l']]
                    elif r['k'] == 'ref' and r['pl']['l'] in out:
                        n = out[r['pl']['l']]
                    if n and out.get(l) != n:
                        out[l] = n
                        ch = True
        return out

    def through_timing(self, f, pl):
        """does the place lie inside a timing record (or is one)?"""
        return any(x[0] == 'f' and len(x) > 2 and x[2] in self.exempt for x in pl['p'])

    def adt(self, t):
        ty = self.P.types[t]
        while ty['k'] in ('ref', 'ptr'):
            ty = self.P.types[ty['t']]
        return ty.get('p') if ty['k'] == 'adt' else None

    def tainted_place(self, f, T, pl):
        if pl['l'] in T:
            return True
        if self.through_timing(f, pl):
            # reading a number out of a timing record
            return self.P.types[pl['t']]['k'] not in ('adt', 'ref')
        return False

    def tainted_op(self, f, T, o):
        return 'pl' in o and self.tainted_place(f, T, o['pl'])

    def body(self, f):
        P = self.P
        uid = f['uid']
        T = self.t.setdefault(uid, set())
        T |= self.param.get(uid, set())
        st = self.refs.get(uid)
        if st is None:
            st = self.refs[uid] = self.statics(f)
        infra = self.adt(f['self']) in self.exempt if isinstance(f.get('self'), int) else False
        ch = True
        while ch:
            ch = False
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] != '=':
                        continue
                    pl, r = s[1], s[2]
                    if r['k'] == 'ref':
                        v = self.tainted_place(f, T, r['pl'])
                    elif r['k'] == 'discr':
                        v = self.tainted_place(f, T, r['pl'])
                    else:
                        v = any(self.tainted_op(f, T, o) for o in [r.get('a'), r.get('b')] + list(r.get('ops') or []) if isinstance(o, dict))
                        if r['k'] == 'cast' and any(x in str(r['ck']) for x in PTR_CASTS):
                            v = True
                        if r['k'] == 'bin' and any('pl' in o and P.types[o['pl']['t']]['k'] == 'ptr' for o in (r['a'], r['b'])):
                            # identity of objects is repeatable, the order of their addresses is not
                            v = r['op'] not in ('Eq', 'Ne')
                    if v:
                        if r['k'] == 'agg' and r.get('p') in self.exempt:
                            continue
                        ch |= self.assign(f, T, pl, infra)
                t = b['t']
                if t[0] == 'call':
                    ch |= self.call(f, T, t, st, infra)
                elif t[0] == 'switch':
                    o = t[1]
                    if isinstance(o, dict) and self.tainted_op(f, T, o) and not infra:
                        self.report(f, 'a branch depends on it')
                elif t[0] == 'assert' and isinstance(t[1], dict) and self.tainted_op(f, T, t[1]) and not infra:
                    self.report(f, 'a check depends on it')
        if 0 in T and uid not in self.ret:
            self.ret.add(uid)
            return True
        return False

    def assign(self, f, T, pl, infra):
        if self.through_timing(f, pl) or self.adt(pl['t']) in self.exempt:
            return False
        if pl['p']:
            if not infra and not (all(x[0] == 'f' for x in pl['p']) and self.P.types[f['locals'][pl['l']][0]]['k'] == 'tuple'):
                self.report(f, 'it is stored in %s' % self.P.types[f['locals'][pl['l']][0]]['s'][:80])
                return False
        if pl['l'] in T:
            return False
        T.add(pl['l'])
        return True

    def call(self, f, T, t, st, infra):
        fop, args, dest = t[1], t[2], t[3]
        name = norm(fop.get('r') or fop.get('fn') or '')
        tin = [i for i, a in enumerate(args) if self.tainted_op(f, T, a)]
        out = False
        if any(name.startswith(x) for x in FORBIDDEN):
            self.report(f, 'calls ' + name)
        if name.startswith('std::sync::atomic::'):
            who = [st.get(a['pl']['l']) for a in args if 'pl' in a and st.get(a['pl']['l'])]
            op = name.split('::')[-1]
            for w in who:
                self.writes.setdefault(w, {}).setdefault(op, set()).add(f['path'])
            if op != 'new':
                if not who:
                    self.report(f, 'uses an atomic cell that is not a named static')
                # what a shared counter held before is not ours to use
                if op != 'load' or not who or who[0] not in self.settings:
                    self.sources += 1
                    out = self.P.types[dest['t']]['k'] not in ('tuple',) and self.P.types[dest['t']]['s'] != '()'
        elif name.startswith(CLOCK):
            self.sources += 1
            out = True
        elif name in ADDRESS:
            self.sources += 1
            out = True
        elif fop.get('local') and (fop.get('ruid') or fop.get('fnuid')) in self.P.fns:
            u = fop.get('ruid') or fop.get('fnuid')
            if tin:
                g = self.param.setdefault(u, set())
                new = {i + 1 for i in tin} - g
                if new:
                    g |= new
                    self.dirty = True
            out = u in self.ret
        elif tin:
            out = True
            for i, a in enumerate(args):
                ty = self.P.types[a['pl']['t']] if 'pl' in a else None
                if ty is not None and ty['k'] == 'ref' and ty.get('m') and i not in tin and self.adt(a['pl']['t']) not in self.exempt and not infra:
                    self.report(f, 'it is handed to %s' % name)
        if out:
            return self.assign(f, T, dest, infra)
        return False

    def run(self, settings):
        self.settings = settings
        while True:
            self.dirty = False
            n = 0
            for f in self.P.fns.values():
                n += bool(self.body(f))
            if not n and not self.dirty:
                break


def check(c):
    c.rule('no-hidden-input', 'values from the clock, shared counters, addresses, hash seeds, the environment or other threads reach only timing records and statistics')
    c.rule('no-shared-state', 'every static item is either a setting the library never changes or a counter whose value nothing depends on')
    c.rule('ordered-containers', 'no container with unspecified iteration order is used')
    for cfg in ('base', 'serde'):
        P = c.prog(cfg)
        c.floor('functions_' + cfg, len(P.fns), 1500)
        F = Flow(c, P)
        if len(F.exempt) != len(TIMING):
            raise AnchorMissing('timing records')
        # a static that is only ever loaded is a setting
        ops = {}
        for f in P.fns.values():
            st = F.refs[f['uid']] = F.statics(f)
            for b in f['blocks']:
                if b['t'][0] == 'call' and norm(b['t'][1].get('fn') or '').startswith('std::sync::atomic::'):
                    for a in b['t'][2]:
                        if 'pl' in a and st.get(a['pl']['l']):
                            ops.setdefault(st[a['pl']['l']], set()).add(norm(b['t'][1]['fn']).split('::')[-1])
        settings = {s for s, o in ops.items() if o <= {'load'}}
        F.run(settings)
        c.count('hidden_sources', F.sources)
        for f in P.fns.values():
            c.saw(f['uid'])
            c.ob('no-hidden-input', f['path'], f['path'] not in F.bad, '; '.join(sorted(F.bad.get(f['path'], ()))))
        pub = [f for f in P.fns.values() if f['uid'] in F.ret]
        for f in pub:
            own = isinstance(f.get('self'), int) and F.adt(f['self']) in F.exempt
            called = any(f['uid'] in (b['t'][1].get('ruid'), b['t'][1].get('fnuid')) for g in P.fns.values() for b in g['blocks'] if b['t'][0] == 'call')
            c.ob('no-hidden-input', 'result of ' + f['path'], own or called or f['kind'] == 'closure', 'a result depends on it')
        for u, s in P.statics.items():
            k = P.types[s['t']]['s']
            plain = 'Atomic' not in k and 'Cell' not in k and 'Mutex' not in k and 'Lock' not in k
            fine = not s['mut'] and (plain or 'Atomic' in k)
            c.ob('no-shared-state', s['p'], fine, 'mutable static of type ' + k)
        for a, d in P.adts.items():
            tys = [P.types[f[1]]['s'] if isinstance(f, (list, tuple)) else str(f) for v in d['v'] for f in v['f']]
            hit = [t for t in tys if any(x in t for x in FORBIDDEN_TYPES)]
            c.ob('ordered-containers', a, not hit, '%s' % hit)
        for f in P.fns.values():
            hit = sorted({P.types[l[0]]['s'] for l in f['locals'] if any(x in P.types[l[0]]['s'] for x in FORBIDDEN_TYPES[:4])})
            if hit:
                c.ob('ordered-containers', f['path'], False, '%s' % hit[:2])
