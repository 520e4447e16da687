"""No unsafe code: every unsafe block, fn, impl or trait and every `static mut` is a violation."""


def check(c):
    c.rule('no-unsafe', 'no unsafe block, unsafe fn, unsafe impl or unsafe trait is written in the crate (compiler-derived code excluded), in either feature configuration')
    c.rule('no-static-mut', 'no static item is mutable')
    c.rule('no-raw-deref', 'no MIR place dereferences a raw pointer')
    for cfg in ('base', 'serde'):
        P = c.prog(cfg)
        c.floor('functions_' + cfg, len(P.fns), 1500)
        byfn = {}
        for u in P.d['unsafe']:
            byfn.setdefault(u.get('fn') or u.get('file'), []).append(u)
        for k, us in byfn.items():
            c.ob('no-unsafe', k, False, repr(us[:3]))
        for s in P.statics.values():
            c.ob('no-static-mut', s['p'], not s['mut'], 'static mut')
        for f in P.fns.values():
            c.saw(f['uid'])
            bad = f.get('unsafe')
            raw = []
            for bl in f['blocks']:
                for s in bl['s']:
                    if s[0] == '=':
                        raw += raw_derefs(P, f, s[1])
                        for key in ('pl',):
                            if key in s[2]:
                                raw += raw_derefs(P, f, s[2][key])
                        for key in ('a', 'b'):
                            o = s[2].get(key)
                            if isinstance(o, dict) and 'pl' in o:
                                raw += raw_derefs(P, f, o['pl'])
            ok = not bad and not raw
            c.ob('no-unsafe', f['path'], ok, 'unsafe fn' if bad else 'raw pointer dereference %s' % raw[:1])


def raw_derefs(P, f, pl):
    if not pl['p']:
        return []
    t = f['locals'][pl['l']][0]
    if pl['p'][0][0] == '*' and P.types[t]['k'] == 'ptr':
        # Box dereferences are lowered through a compiler-made pointer temporary
        if f['locals'][pl['l']][1] is None and any(s[0] == '=' and s[1]['l'] == pl['l'] and not s[1]['p'] and s[2].get('k') in ('cast', 'use') for b in f['blocks'] for s in b['s']):
            return []
        return [P.types[t]['s']]
    return []
