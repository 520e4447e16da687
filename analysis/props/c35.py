"""Life cycle of bodies: creation, destruction, type change, enabling."""
from ..spec import *
from .worldlib import *
from .bodylib import AWAKE, AUTOSLEEP, BULLET, FIXROT, ENABLED
from .c03 import k_

W = 'b2_world::B2world::<D>::'
T = S(TRUE)


def check(c):
    P = c.P
    new(c, P)
    create(c, P)
    destroy(c, P)
    set_type(c, P)
    set_enabled(c, P)
    c.rule('default', 'an untouched definition has the documented values')
    r = summarise(c, P, '<b2_body::B2bodyDef<D> as std::default::Default>::default', names=[])
    zero = ('angle', 'angular_velocity', 'linear_damping', 'angular_damping', ('position', 'x'), ('position', 'y'), ('linear_velocity', 'x'), ('linear_velocity', 'y'))
    for f, v in [(x, k_(0)) for x in zero] + [('gravity_scale', k_(1)), ('user_data', NONE)] + [(x, S(TRUE)) for x in ('allow_sleep', 'awake', 'enabled')] + [(x, S(FALSE)) for x in ('fixed_rotation', 'bullet')]:
        g = r.value(r.ret, f if isinstance(f, tuple) else (f,))
        c.ob('default', str(f), same(g, v), E.show(g, 3))
    g = r.value(r.ret, ('body_type',))
    c.ob('default', 'body type static', 'B2StaticBody' in E.show(g, 3), E.show(g, 3))


def new(c, P):
    c.rule('new', 'a new body takes every value of its definition, is at rest in its lists and counts, and rejects invalid definitions')
    r = summarise(c, P, BDM + 'new', names=['def', 'world'], hooks={'b2_math::b2_is_valid': ask('valid')})
    d = sym('def')
    np = ~panics(r)

    def f(*keys): return E.constrain(r.value(r.ret, keys), np.n)

    def num(lab, keys, want):
        c.ob('new', lab, same(f(*keys), E.constrain(nd(want), np.n)), 'is %s' % E.show(f(*keys), 4)[:200])
    p = d.vec('position')
    a = d.num('angle')
    for ax, x in (('x', p.x), ('y', p.y)):
        for q in (('m_xf', 'p'), ('m_sweep', 'c'), ('m_sweep', 'c0')):
            num('.'.join(q) + '.' + ax, q + (ax,), x)
        num('centre of mass ' + ax, ('m_sweep', 'local_center', ax), k_(0))
        num('velocity ' + ax, ('m_linear_velocity', ax), d.num('linear_velocity', ax))
        num('force ' + ax, ('m_force', ax), k_(0))
    num('rotation sine', ('m_xf', 'q', 's'), fn('sin', a))
    num('rotation cosine', ('m_xf', 'q', 'c'), fn('cos', a))
    for q, x in (('a', a), ('a0', a), ('alpha0', k_(0))):
        num('sweep ' + q, ('m_sweep', q), x)
    for q, s in (('m_angular_velocity', 'angular_velocity'), ('m_linear_damping', 'linear_damping'), ('m_angular_damping', 'angular_damping'), ('m_gravity_scale', 'gravity_scale')):
        num(s, (q,), d.num(s))
    for q in ('m_torque', 'm_sleep_time', 'm_mass', 'm_inv_mass', 'm_i', 'm_inv_i', 'm_fixture_count'):
        num(q[2:], (q,), k_(0))
    c.ob('new', 'type', f('m_type') == d.at('body_type').n, E.show(f('m_type'), 3))
    c.ob('new', 'user data', f('m_user_data') == d.at('user_data').n, E.show(f('m_user_data'), 3))
    c.ob('new', 'world', f('m_world') == sym('world').ptr(), E.show(f('m_world'), 3))
    for q in (('m_prev',), ('m_next',), ('m_joint_list', 'head'), ('m_contact_list', 'head'), ('m_fixture_list', 'head')):
        c.ob('new', '.'.join(q) + ' is empty', f(*q) == NONE.n, E.show(f(*q), 3))
    st = d.at('body_type').is_(0, 3)
    fl = {AWAKE: d.bool('awake') & ~st, AUTOSLEEP: d.bool('allow_sleep'), BULLET: d.bool('bullet'), FIXROT: d.bool('fixed_rotation'), ENABLED: d.bool('enabled')}
    v = r.value(r.ret, ('m_flags',))
    for b in range(7):
        got = E.constrain(r.eng.flagbit(v, b), np.n)
        want = E.constrain(fl[b].n if b in fl else FALSE, np.n)
        c.ob('new', 'flag %d' % b, got == want, show_difference(got, want))
    bad = d.num('angular_damping') < k_(0)
    bad = bad | (d.num('linear_damping') < k_(0))
    c.ob('new', 'negative damping is rejected', E.AND(bad.n, np.n) == FALSE, 'accepted')
    for ks in (('position', 'x'), ('position', 'y'), ('linear_velocity', 'x'), ('linear_velocity', 'y'), ('angle',), ('angular_velocity',), ('linear_damping',), ('angular_damping',)):
        c.ob('new', 'an invalid %s is rejected' % '.'.join(ks), E.AND(np.n, (~uf('valid', d.num(*ks))).n) == FALSE, 'accepted')
    expect_changes(c, 'new', 'building a body', r, {})


def create(c, P):
    c.rule('create', 'the world gains exactly the new body')
    H = dict(PARTS, **{BDM + 'new': record('make', lambda e, a, n: sym('made').n)})
    r = summarise(c, P, W + 'create_body', names=['world', 'def'], hooks=H)
    w = sym('world')
    np = ~panics(r)
    c.ob('create', 'creating a body fails exactly in a locked world', panics(r).n == w.bool('m_locked').n, 'fails when ' + E.show(panics(r).n, 4))
    expect_calls(c, 'create', 'creating a body', r.effects, 'make', [((sym('def').ptr(), w.ptr()), T)], under=np)
    ret = E.constrain(r.ret, np.n)
    c.ob('create', 'the new body is returned', r.value(ret, ()) == sym('made').n or r.value(ret, ('m_mass',)) == sym('made').num('m_mass').n, E.show(ret, 3))
    expect_calls(c, 'create', 'creating a body', r.effects, 'insert', [((place(w, 'm_body_list'), ret), T)], under=np)
    for n in ('remove', 'clear'):
        expect_calls(c, 'create', 'creating a body', r.effects, n, [])
    expect_changes(c, 'create', 'creating a body', r, {w.at('m_body_count'): w.num('m_body_count') + k_(1)}, under=np)


def none_of(c, rule, lab, r, *names):
    for n in names:
        got = [x for x, _ in r.flat(kinds=('call',)) if x.name == n]
        c.ob(rule, '%s: no %s' % (lab, n), not got, '%d' % len(got))


def only_here(c, rule, lab, r, names, loop=None):
    """recorded calls happen only where they were looked for."""
    for n in names:
        for x in calls(r.effects, n):
            c.ob(rule, '%s: %s outside the pass' % (lab, n), False, 'when ' + E.show(x.guard, 3))
        for L in loops(r):
            if loop is None or L.e is not loop.e:
                for x in L.sub:
                    if x.kind == 'call' and x.name == n:
                        c.ob(rule, '%s: %s in another pass' % (lab, n), False, 'when ' + E.show(x.guard, 3))


def destroy(c, P):
    c.rule('destroy', 'destroying a body ends its joints, contacts and proxies, says goodbye to joints and fixtures and unlinks the body')
    r = summarise(c, P, W + 'destroy_body', names=['world', 'b'], hooks={k: v for k, v in PARTS.items()})
    w, b = sym('world'), sym('b')
    np = ~panics(r)
    cnt = w.num('m_body_count') > k_(0)
    bad = w.bool('m_locked') | ~cnt
    c.ob('destroy', 'fails exactly in a locked world or without bodies', panics_top(r).n == bad.n, 'fails when ' + E.show(panics_top(r).n, 4))
    lst = w.at('m_destruction_listener')
    lp = w.ptr('m_destruction_listener', *SOME)
    GJ, GF = ('b2_world_callbacks::B2destructionListener::say_goodbye_' + x for x in ('joint', 'fixture'))
    ls = loops(r)
    for lab, head, link, jobs in (
            ('joints', b.at('m_joint_list', 'head'), ('next',), lambda e, live: [(GJ, (lp, e.ptr('joint')), ~isnone(lst) & live), ('end joint', (w.ptr(), e.ptr('joint')), live)]),
            ('contacts', b.at('m_contact_list', 'head'), ('next',), lambda e, live: [('end contact', (w.ptr('m_contact_manager'), e.ptr('contact')), live)]),
            ('fixtures', b.at('m_fixture_list', 'head'), ('m_next',), lambda e, live: [(GF, (lp, e.ptr()), ~isnone(lst) & live), ('remove proxies', (e.ptr(), w.ptr('m_contact_manager', 'm_broad_phase')), live)])):
        L = pick(c, 'destroy', lab, ls, head)
        if L is None:
            continue
        sc = walk(c, 'destroy', 'ending the ' + lab, L, head, link, T, np)
        if sc is None:
            continue
        e, live = sc
        e = Obj(e.n)
        u = np & ~panics_in(L)
        js = jobs(e, live)
        for n, a, g in js:
            expect_calls(c, 'destroy', lab, L.sub, n, [(a, g)], under=u)
        only_here(c, 'destroy', lab, r, [n for n, _, _ in js], L)
        if len(js) == 2:
            before(c, 'destroy', lab, L.sub, js[0][0], js[1][0])
        allow = ('b.m_fixture_count',) if lab == 'fixtures' else ()
        untouched(c, 'destroy', lab, L.sub, allow)
    before(c, 'destroy', 'body', r.effects, 'end contact', 'remove proxies')
    expect_calls(c, 'destroy', 'body', r.effects, 'remove', [((place(w, 'm_body_list'), b.ptr()), T)], under=np)
    for x in calls(r.effects, 'clear'):
        c.ob('destroy', 'only lists of the dead body are emptied', x.args[0] in (place(b, 'm_joint_list'), place(b, 'm_contact_list')), E.show(x.args[0], 3))
    for x in calls(r.effects, 'drop fixtures'):
        c.ob('destroy', 'only fixtures of the dead body are dropped', x.args[0] == place(b, 'm_fixture_list'), E.show(x.args[0], 3))
    expect_calls(c, 'destroy', 'body', r.effects, 'drop fixtures', [((place(b, 'm_fixture_list'),), T)], under=np)
    none_of(c, 'destroy', 'body', r, 'insert', 'add fixture', 'create proxies', 'touch')
    expect_changes(c, 'destroy', 'destroying a body', r, {w.at('m_body_count'): w.num('m_body_count') - k_(1), b.at('m_fixture_count'): k_(0)}, under=np)


def set_type(c, P):
    c.rule('type', 'changing the type resets mass, motion, contacts and pairing; setting the same type does nothing')
    r = summarise(c, P, BDM + 'set_type', names=['b', 't'], hooks=PARTS)
    b, t = sym('b'), sym('t')
    w = b.at('m_world')
    np = ~panics(r) & ~w.bool('m_locked')
    c.ob('type', 'fails in a locked world', E.AND(w.bool('m_locked').n, (~panics_top(r)).n) == FALSE, 'goes on')
    more = fails_beyond(panics_top(r), w.bool('m_locked'))
    c.ob('type', 'fails only in a locked world', more == FALSE, 'fails when ' + E.show(more, 4))
    diff = FALSE
    for i in range(3):
        diff = E.OR(diff, E.AND(b.at('m_type').is_(i, 3).n, E.NOT(t.is_(i, 3).n)))
    diff = S(diff)
    st = diff & t.is_(0, 3)

    want = {}
    for ax in 'xy':
        want[b.at('m_force', ax)] = ite(diff, k_(0), b.num('m_force', ax))
        want[b.at('m_linear_velocity', ax)] = ite(st, k_(0), b.num('m_linear_velocity', ax))
        want[b.at('m_sweep', 'c0', ax)] = ite(st, b.num('m_sweep', 'c', ax), b.num('m_sweep', 'c0', ax))
    want[b.at('m_torque')] = ite(diff, k_(0), b.num('m_torque'))
    want[b.at('m_angular_velocity')] = ite(st, k_(0), b.num('m_angular_velocity'))
    want[b.at('m_sweep', 'a0')] = ite(st, b.num('m_sweep', 'a'), b.num('m_sweep', 'a0'))
    ch = changes(r)
    got = ch.get('b.m_type')
    u = E.AND(np.n, diff.n)
    c.ob('type', 'the new type is stored', got is not None and E.constrain(got, u) == E.constrain(t.n, u), E.show(got, 3) if got is not None else 'not stored')
    want['b.m_flags#1'] = b.flag(AWAKE, 'm_flags') & ~st
    expect_changes(c, 'type', 'changing the type', r, want, under=np, ignore=('b.m_type',))
    expect_calls(c, 'type', 'mass is recomputed', r.effects, 'mass', [((b.ptr(),), diff)], under=np)
    expect_calls(c, 'type', 'the body is woken', r.effects, 'wake', [((b.ptr(), T), diff)], under=np)
    expect_calls(c, 'type', 'a body made static has its boxes settled', r.effects, 'synchronise all', [((b.ptr(),), st)], under=np)
    for n in ('mass', 'wake', 'synchronise all'):
        for x in calls(r.effects, n):
            c.ob('type', n + ' sees the new type', at_call(r, x, b.ptr(), 'm_type') == E.constrain(t.n, x.guard), E.show(at_call(r, x, b.ptr(), 'm_type'), 3))
    for x in calls(r.effects, 'synchronise all'):
        for ks in (('c0', 'x'), ('c0', 'y'), ('a0',)):
            src = ('c',) + ks[1:] if ks[0] == 'c0' else ('a',)
            g = at_call(r, x, b.ptr(), 'm_sweep', *ks)
            c.ob('type', 'boxes are settled at the final place (%s)' % '.'.join(ks), same(g, E.constrain(b.num('m_sweep', *src).n, x.guard)), E.show(g, 3))
    ls = loops(r)
    L = pick(c, 'type', 'contacts', ls, b.at('m_contact_list', 'head'))
    if L is not None:
        sc = walk(c, 'type', 'ending the contacts', L, b.at('m_contact_list', 'head'), ('next',), diff, np)
        if sc:
            e, live = sc
            expect_calls(c, 'type', 'contacts', L.sub, 'end contact', [((w.ptr('m_contact_manager'), Obj(e.n).ptr('contact')), live & diff)], under=np & ~panics_in(L))
            only_here(c, 'type', 'contacts', r, ['end contact'], L)
            untouched(c, 'type', 'contacts', L.sub)
    L = pick(c, 'type', 'fixtures', ls, b.at('m_fixture_list', 'head'))
    if L is not None:
        sc = walk(c, 'type', 'marking the proxies', L, b.at('m_fixture_list', 'head'), ('m_next',), diff, np)
        if sc:
            e, live = sc
            e = Obj(e.n)
            M = [Loop(x) for x in L.sub if x.kind == 'loop']
            if c.ob('type', 'one pass over the proxies of a fixture', len(M) == 1, '%d' % len(M)):
                sc = counted(c, 'type', 'proxies', M[0], e.num('m_proxy_count'))
                if sc:
                    i, run = sc
                    expect_calls(c, 'type', 'proxies', M[0].sub, 'touch', [((w.ptr('m_contact_manager', 'm_broad_phase'), e.at('m_proxies', ('i', i.n)).num('proxy_id')), diff & live & run)], under=np & ~panics_in(L))
            untouched(c, 'type', 'proxies', L.sub)
    none_of(c, 'type', 'changing the type', r, 'insert', 'remove', 'add fixture', 'drop fixture', 'drop fixtures', 'create proxies', 'remove proxies', 'end joint')


def set_enabled(c, P):
    c.rule('enable', 'enabling creates proxies and asks for new contacts, disabling removes proxies and contacts, repeating does nothing')
    r = summarise(c, P, BDM + 'set_enabled', names=['b', 'flag'], hooks=PARTS)
    b, fl = sym('b'), sym('flag').bool()
    w = b.at('m_world')
    np = ~panics(r) & ~w.bool('m_locked')
    c.ob('enable', 'fails in a locked world', E.AND(w.bool('m_locked').n, (~panics_top(r)).n) == FALSE, 'goes on')
    more = fails_beyond(panics_top(r), w.bool('m_locked'))
    c.ob('enable', 'fails only in a locked world', more == FALSE, 'fails when ' + E.show(more, 4))
    was = b.flag(ENABLED, 'm_flags')
    on, off = fl & ~was, ~fl & was
    bp = w.ptr('m_contact_manager', 'm_broad_phase')
    nc = w.at('m_new_contacts')
    expect_changes(c, 'enable', 'enabling or disabling', r, {'b.m_flags#5': fl, nc: w.bool('m_new_contacts') | on}, under=np)
    ls = loops(r)
    for lab, n, when, head, link, arg in (('creating proxies', 'create proxies', on, 'm_fixture_list', 'm_next', lambda e: (e.ptr(), bp, None)),
                                          ('removing proxies', 'remove proxies', off, 'm_fixture_list', 'm_next', lambda e: (e.ptr(), bp)),
                                          ('ending contacts', 'end contact', off, 'm_contact_list', 'next', lambda e: (w.ptr('m_contact_manager'), e.ptr('contact')))):
        L = [x for x in ls if any(y.kind == 'call' and y.name == n for y in x.sub)]
        if not c.ob('enable', lab + ': one pass', len(L) == 1, '%d' % len(L)):
            continue
        L = L[0]
        h = b.at(head, 'head')
        # one pass may serve both directions
        sc = scan(c, 'enable', lab, L, h, (link,))
        if sc is None:
            continue
        e, live = sc
        fine = np & ~panics_in(L) & when
        c.ob('enable', lab + ' happens', E.AND(when.n, np.n) == E.AND(E.AND(when.n, np.n), L.guard), 'skipped when ' + E.show(E.AND(E.AND(when.n, np.n), E.NOT(L.guard)), 4)[:200])
        c.ob('enable', lab + ' reaches the end', all(E.AND(E.AND(x, live.n), fine.n) == FALSE for x in L.exits), 'may stop early')
        u = np & ~panics_in(L)
        expect_calls(c, 'enable', lab, L.sub, n, [(arg(Obj(e.n)), when & live)], under=u)
        only_here(c, 'enable', lab, r, [n], L)
        if n == 'create proxies':
            for x in calls(L.sub, n):
                for ks in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
                    g = at_call(r, x, x.args[2], *ks)
                    c.ob('enable', 'proxies are created where the body is (%s)' % '.'.join(ks), same(g, E.constrain(b.num('m_xf', *ks).n, x.guard)), E.show(g, 3))
        untouched(c, 'enable', lab, L.sub)
    none_of(c, 'enable', 'enabling or disabling', r, 'insert', 'remove', 'add fixture', 'drop fixture', 'drop fixtures', 'end joint', 'mass', 'wake', 'touch')
