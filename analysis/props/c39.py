"""Body placement: transform, sweep and fixture synchronisation agree; plain accessors."""
from ..spec import *
from .worldlib import *
from .bodylib import AWAKE

B = BDM
LOCKED = ('m_world', 'm_locked')


def rot(s, c, v): return V(c * v.x - s * v.y, s * v.x + c * v.y)


def check(c):
    P = c.P
    self_ = sym('self')
    lc = self_.vec('m_sweep', 'local_center')

    c.rule('placement', 'placing a body sets its transform, current and previous centre and angle, and its fixtures, consistently')
    r = summarise(c, P, B + 'set_transform', names=['self', 'p', 'a'], hooks=PARTS)
    a, p = sym('a').num(), sym('p').vec()
    s, k = fn('sin', a), fn('cos', a)
    ctr = rot(s, k, lc) + p
    np = ~panics(r)
    loc = {'self.m_xf.q.s': s, 'self.m_xf.q.c': k, 'self.m_xf.p': p, 'self.m_sweep.a': a, 'self.m_sweep.a0': a,
           'self.m_sweep.c': ctr, 'self.m_sweep.c0': ctr, 'self.m_world.m_new_contacts': S(TRUE)}
    expect_changes(c, 'placement', 'set transform', r, loc, under=np)
    c.ob('placement', 'fails only in a locked world', fails_beyond(panics_top(r), self_.bool(*LOCKED)) == FALSE, E.show(panics(r).n, 4)[:200])
    ls = loops(r)
    L = pick(c, 'placement', 'set transform', ls, self_.at('m_fixture_list', 'head'))
    if L:
        w = walk(c, 'placement', 'set transform', L, self_.at('m_fixture_list', 'head'), ('m_next',), S(TRUE), np)
        if w:
            f, live = w
            u = live & np
            expect_calls(c, 'placement', 'set transform', L.sub, 'synchronise', [((f.ptr(), self_.ptr('m_world', 'm_contact_manager', 'm_broad_phase'), None, None), live)], under=u)
            for x in calls(L.sub, 'synchronise'):
                for i in (2, 3):
                    for key, v in ((('p', 'x'), p.x), (('p', 'y'), p.y), (('q', 's'), s), (('q', 'c'), k)):
                        g = E.constrain(r.value(x.args[i], key, mem=x.mem), E.AND(x.guard, np.n))
                        c.ob('placement', 'fixtures are placed at the new transform (%d %s)' % (i - 1, '.'.join(key)), same(g, E.constrain(nd(v), E.AND(x.guard, np.n))), E.show(g, 4)[:200])
    c.ob('placement', 'fixtures synchronised in the loop only', not calls(r.effects, 'synchronise'), '')

    c.rule('sync', 'the transform is the sweep\'s current placement')
    r = summarise(c, P, B + 'synchronize_transform', names=['self'])
    a = self_.num('m_sweep', 'a')
    s, k = fn('sin', a), fn('cos', a)
    pos = self_.vec('m_sweep', 'c') - rot(s, k, lc)
    expect_changes(c, 'sync', 'transform', r, {'self.m_xf.q.s': s, 'self.m_xf.q.c': k, 'self.m_xf.p': pos})
    no_panic(c, 'sync', 'sync', r)

    c.rule('advance', 'advancing a body moves its start pose to the given time along the sweep and places it there')
    r = summarise(c, P, B + 'advance', names=['self', 't'])
    t = sym('t').num()
    a0 = self_.num('m_sweep', 'alpha0')
    beta = (t - a0) / (S(E.ONE) - a0)
    c0 = self_.vec('m_sweep', 'c0')
    cc = self_.vec('m_sweep', 'c')
    nc = c0 + (cc - c0) * beta
    na = self_.num('m_sweep', 'a0') + (self_.num('m_sweep', 'a') - self_.num('m_sweep', 'a0')) * beta
    s, k = fn('sin', na), fn('cos', na)
    expect_changes(c, 'advance', 'advance', r, {'self.m_sweep.alpha0': t, 'self.m_sweep.c0': nc, 'self.m_sweep.c': nc, 'self.m_sweep.a0': na, 'self.m_sweep.a': na,
                                                'self.m_xf.q.s': s, 'self.m_xf.q.c': k, 'self.m_xf.p': nc - rot(s, k, lc)}, under=~panics(r))
    c.ob('advance', 'fails only when the sweep is already complete', E.AND(panics(r).n, (a0 < S(E.ONE)).n) == FALSE, E.show(panics(r).n, 4))

    c.rule('swept', 'every fixture of a body is synchronised over the motion of an awake body, or at its place when asleep')
    for name, wp in (('synchronize_fixtures', None), ('synchronize_fixtures_by_world', 'world')):
        r = summarise(c, P, B + name, names=['self'] + ([wp] if wp else []), hooks={k_: v for k_, v in PARTS.items() if not k_.endswith('synchronize_fixtures')})
        bp = (sym('world') if wp else self_.at('m_world')).ptr('m_contact_manager', 'm_broad_phase')
        awake = self_.flag(AWAKE, 'm_flags')
        np = ~panics(r)
        a = self_.num('m_sweep', 'a0')
        s, k = fn('sin', a), fn('cos', a)
        start = {('p', 'x'): (self_.vec('m_sweep', 'c0') - rot(s, k, lc)).x, ('p', 'y'): (self_.vec('m_sweep', 'c0') - rot(s, k, lc)).y, ('q', 's'): s, ('q', 'c'): k}
        head = self_.at('m_fixture_list', 'head')
        tot = FALSE
        c.ob('swept', name + ': fails only in a dropped world', fails_beyond(panics_top(r)) == FALSE, E.show(panics_top(r).n, 3))
        for L in loops(r):
            sc = scan(c, 'swept', name, L, head, ('m_next',))
            if not sc:
                continue
            f, live = sc
            fine = E.AND(L.guard, E.AND((~panics_in(L)).n, np.n))
            c.ob('swept', name + ' reaches the end', all(E.AND(E.AND(x, live.n), fine) == FALSE for x in L.exits), 'may stop early')
            tot = E.OR(tot, E.AND(L.guard, np.n))
            u = live & np & S(L.guard)
            expect_calls(c, 'swept', name, L.sub, 'synchronise', [((f.ptr(), bp, None, None), S(TRUE))], under=u)
            for x in calls(L.sub, 'synchronise'):
                for key, v in start.items():
                    want = ite(awake, v, self_.num('m_xf', *key))
                    g = E.constrain(r.value(x.args[2], key, mem=x.mem), x.guard)
                    c.ob('swept', '%s: start pose %s' % (name, '.'.join(key)), same(g, E.constrain(nd(want), x.guard)), E.show(g, 4)[:200])
                    g = E.constrain(r.value(x.args[3], key, mem=x.mem), x.guard)
                    c.ob('swept', '%s: end pose %s' % (name, '.'.join(key)), same(g, E.constrain(self_.num('m_xf', *key).n, x.guard)), E.show(g, 4)[:200])
        c.ob('swept', name + ' covers awake and sleeping bodies', tot == np.n and np.n != FALSE, 'covers ' + E.show(tot, 3))
        c.ob('swept', name + ' synchronises once per fixture', not calls(r.effects, 'synchronise'), '')
        expect_changes(c, 'swept', name, r, {}, under=np)

    c.rule('access', 'accessors return the stored value and change nothing; user data is replaced by what is given')
    for name, keys in (('get_type', ('m_type',)), ('get_transform', ('m_xf',)), ('get_position', ('m_xf', 'p')), ('get_angle', ('m_sweep', 'a')), ('get_world_center', ('m_sweep', 'c')),
                       ('get_local_center', ('m_sweep', 'local_center')), ('get_user_data', ('m_user_data',)), ('get_next', ('m_next',))):
        r = summarise(c, P, B + name, names=['self'])
        c.ob('access', name, same(r.ret, self_.at(*keys).n), E.show(r.ret, 3)[:200])
        expect_changes(c, 'access', name, r, {})
        no_panic(c, 'access', 'access', r)
    for name, key in (('get_fixture_list', 'm_fixture_list'), ('get_joint_list', 'm_joint_list'), ('get_joint_list_mut', 'm_joint_list'), ('get_contact_list', 'm_contact_list')):
        r = summarise(c, P, B + name, names=['self'])
        c.ob('access', name, r.ret == place(self_, key), E.show(r.ret, 3)[:200])
        expect_changes(c, 'access', name, r, {})
        no_panic(c, 'access', 'access', r)
    r = summarise(c, P, B + 'get_world', names=['self'])
    c.ob('access', 'get_world', r.ret == self_.at('m_world').ptr(), E.show(r.ret, 3)[:200])
    c.ob('access', 'get_world fails only when the world is gone', fails_beyond(panics(r)) == FALSE, E.show(panics(r).n, 3))
    expect_changes(c, 'access', 'get_world', r, {})
    r = summarise(c, P, B + 'set_user_data', names=['self', 'd'])
    g = E.show(r.value(sym('self').ptr(), ('m_user_data',)), 4)
    ch = {E.showloc(*x.loc) for x in writes(r.effects) if outside(x)}
    c.ob('access', 'user data replaced', ch == {'self.m_user_data'} and 'Some' in g and '0:d' in g.replace(' ', ''), '%s %s' % (ch, g))
    no_panic(c, 'access', 'access', r)
