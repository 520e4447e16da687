"""No operation trips over its own dynamic borrows."""
from ..borrow import Borrows, contexts

# objects that are different by construction although they have the same type
DISTINCT = {'b2_body::B2body': 'the two bodies of a contact or joint are different (C03, joint constructors)',
            'T': 'a list node and its neighbour are different nodes'}
# the entry being visited is only unlinked, which borrows its neighbours (C02)
NEIGHBOURS = {('b2_contact::B2contactEdge', 's', 'm'), ('b2_joint::B2jointEdge', 's', 'm')}
CALLBACKS = ('::B2contactListener::', '::B2contactFilter::', '::B2destructionListener::', 'ops::FnMut::call_mut')
OBJECTS = ('b2_body::B2body', 'b2_fixture::B2fixture', 'b2_joint::B2jointTraitDyn', 'b2_joint::B2joint')


def check(c):
    P = c.P
    c.rule('guard', 'while a borrow guard on a type is alive nothing borrows that type again, unless both are shared or the objects are different by construction')
    c.rule('receiver', 'an operation that receives an object by reference never borrows an object of that type again')
    c.rule('callback', 'whenever the library calls a listener, a filter or a user closure, no body, fixture or joint is held, by the calling function or any function above it')
    B = Borrows(P)
    c.floor('borrow sites', B.sites, 100)
    c.count('cell-held types', len(B.held))
    guards = 0
    for u, f in sorted(P.fns.items(), key=lambda x: x[1]['path']):
        conf, n = B.guards(f)
        c.saw(f['path'])
        guards += n
        bad = {}
        for ty, mode, m2, name, different, line in conf:
            if (ty, mode, m2) in NEIGHBOURS or (different and ty in DISTINCT):
                continue
            bad.setdefault((ty, mode, m2, name), line)
        if n or bad:
            c.ob('guard', f['path'], not bad, '; '.join('%s is held %s and borrowed %s by %s (line %s)' % (
                k[0].split('::')[-1], 'exclusively' if k[1] == 'm' else 'shared', 'exclusively' if k[2] == 'm' else 'shared', 'this function' if k[3] == 'borrow' else k[3], l) for k, l in sorted(bad.items(), key=str)))
        ps = B.params(f)
        if ps or B.eff[u]:
            c.ob('receiver', f['path'], not ps, '; '.join('receives %s %s and borrows one %s' % (k.split('::')[-1], 'exclusively' if m == 'm' else 'shared', 'exclusively' if m2 == 'm' else 'shared') for k, m, m2 in sorted(ps)))
    c.count('guards followed', guards)
    ctx, sites = contexts(B)
    n = 0
    for u, fn, held, line in sites:
        name = next((x for x in CALLBACKS if x in fn), None)
        if name is None or name in P.fns[u]['path']:
            continue
        n += 1
        bad = sorted({(t, m) for t, m in ctx[u] | held if t in OBJECTS})
        c.ob('callback', '%s from %s' % (fn, P.fns[u]['path']), not bad, 'line %s: %s may be held' % (line, ', '.join('%s (%s)' % (t.split('::')[-1], 'exclusively' if m == 'm' else 'shared') for t, m in bad)))
    c.floor('callback sites', n, 8)
