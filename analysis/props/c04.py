"""Ownership: the strong-reference graph of the crate's types has no cycle other than the intrusive list links."""
from ..ownership import OwnGraph, scc


def list_links(P):
    """(adt, field) pairs that implement the intrusive lists' `next` link."""
    out = set()
    for im in P.impls:
        tr = im.get('trait') or ''
        if tr.split('::')[-1] not in ('LinkedListNode', 'DoubleLinkedListNode'):
            continue
        for n, uid, _ in im['items']:
            if n in ('get_next', 'set_next', 'take_next') and uid in P.fns:
                for b in P.fns[uid]['blocks']:
                    for s in b['s']:
                        if s[0] != '=':
                            continue
                        pls = [s[1]] + ([s[2]['pl']] if 'pl' in s[2] else []) + [s[2][k]['pl'] for k in ('a', 'b') if isinstance(s[2].get(k), dict) and 'pl' in s[2][k]]
                        for pl in pls:
                            for x in pl['p']:
                                if x[0] == 'f' and x[2] in P.adts:
                                    out.add((x[2], x[1]))
    return {(a, f) for a, f in out if f != 'base'}


CORE = ('b2_world::B2world', 'b2_body::B2body', 'b2_fixture::B2fixture', 'b2_contact::B2contact', 'b2_joint::B2joint', 'b2_contact_manager::B2contactManager')


def short(n):
    return '<'.join(x.split('::')[-1] for x in n.split('<'))


def check(c):
    c.rule('acyclic', 'after removing the intrusive-list next links, no type of the crate can keep itself alive through strong references (type-level graph, trait objects expanded to every implementor)')
    c.rule('gear-children', 'a gear joint may own other joints, but no other joint type owns a joint')
    c.rule('back-reference-weak', 'a type owned (directly or indirectly) by the world never strongly references one of its owners')
    for cfg in ('base', 'serde'):
        P = c.prog(cfg)
        G = OwnGraph(P)
        for k in CORE:
            if k not in P.adts:
                from ..check import AnchorMissing
                raise AnchorMissing(k)
        links = list_links(P)
        c.floor('list_links_' + cfg, len(links), 4)
        c.floor('strong_edges_' + cfg, len(G.edges), 150)
        c.floor('weak_edges_' + cfg, len(G.weak), 4)
        gear = [p for p in P.adts if p.endswith('::B2gearJoint')]
        g = {}
        cut = []
        for (a, b), fs in G.edges.items():
            keep = set()
            for f in fs:
                f0 = f.split('.')[0]
                if (a, f0) in links and (a == b or b.startswith('dyn ')):
                    cut.append((a, f0))
                    continue
                if a in gear and b.startswith('dyn ') and b.endswith('B2jointTraitDyn'):
                    cut.append((a, f0))
                    continue
                keep.add(f)
            g.setdefault(a, set())
            g.setdefault(b, set())
            if keep:
                g[a].add(b)
        comps = scc(g)
        c.counts['types_' + cfg] = len(g)
        cyc = {}
        for comp in comps:
            if len(comp) > 1 or any(x in g[x] for x in comp):
                for x in comp:
                    cyc[x] = comp
        for p in sorted(g):
            if p in cyc:
                fs = sorted('%s.%s -> %s' % (short(a), '/'.join(sorted(f)), short(b)) for (a, b), f in G.edges.items() if a in cyc[p] and b in cyc[p] and b in g.get(a, ()))
                c.ob('acyclic', p, False, 'strong reference cycle: ' + '; '.join(fs[:6]))
            else:
                c.ob('acyclic', p, True)
        # explicit owners of the core objects
        for (a, b), fs in sorted(G.edges.items()):
            if b == 'b2_world::B2world':
                if a.startswith('private::') or a in CORE:
                    c.ob('back-reference-weak', a + ' -> ' + b, False, 'holds a strong reference to the world through ' + '/'.join(sorted(fs)))
        for (a, b), fs in sorted(G.weak.items()):
            if b in CORE:
                c.ob('back-reference-weak', a + ' -> ' + b + ' (weak)', True)
                c.sample('%s.%s is weak towards %s' % (a, '/'.join(sorted(fs)), b))
        impls = {b for (a, b) in G.edges if a.startswith('dyn ') and a.endswith('B2jointTraitDyn')}
        for (a, b), fs in G.edges.items():
            if b.endswith('B2jointTraitDyn') and a not in gear and (a in impls or a == 'b2_joint::B2joint'):
                for f in fs:
                    f0 = f.split('.')[0]
                    c.ob('gear-children', a + '.' + f0, (a, f0) in links, 'joint type owns another joint')
