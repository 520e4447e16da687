"""Contact parameters: mixing rules, defaults and the contact interface."""
from ..spec import *
from .worldlib import *
from .c03 import body, k_

CO = 'b2_contact::B2contact::<D>::'


def check(c):
    P = c.P
    c.rule('mixing', 'friction is the geometric mean, restitution the larger, threshold the smaller of the two fixtures')
    c.rule('new', 'a new contact is enabled, not touching, unlinked, without points, with mixed parameters')
    c.rule('interface', 'each accessor reads or writes exactly its own parameter')
    a, b = sym('a').num(), sym('b').num()
    method(c, 'mixing', P, 'b2_contact::b2_mix_friction', ['a', 'b'], ret=sqrt(a * b))
    method(c, 'mixing', P, 'b2_contact::b2_mix_restitution', ['a', 'b'], ret=smax(a, b))
    method(c, 'mixing', P, 'b2_contact::b2_mix_restitution_threshold', ['a', 'b'], ret=smin(a, b))

    def mixed(fa, fb):
        return {'m_friction': sqrt(fa.num('m_friction') * fb.num('m_friction')), 'm_restitution': smax(fa.num('m_restitution'), fb.num('m_restitution')),
                'm_restitution_threshold': smin(fa.num('m_restitution_threshold'), fb.num('m_restitution_threshold'))}
    fa, fb = sym('fa'), sym('fb')
    r = summarise(c, P, CO + 'new', names=['fa', 'ia', 'fb', 'ib'])
    no_panic(c, 'new', 'new contact', r)
    w = dict(mixed(fa, fb))
    z = k_(0)
    w.update({'m_index_a': sym('ia').num(), 'm_index_b': sym('ib').num(), 'm_toi_count': z, 'm_toi': z, 'm_tangent_speed': z, 'm_manifold.point_count': z})
    w.update({'m_fixture_a': S(fa.ptr()), 'm_fixture_b': S(fb.ptr()), 'm_prev': NONE, 'm_next': NONE, 'm_node_a': NONE, 'm_node_b': NONE})
    for p, x in w.items():
        got = r.value(r.ret, tuple(p.split('.')))
        c.ob('new', 'new contact ' + p, same(got, x.n), 'is %s' % E.show(got, 4))
    fl = r.value(r.ret, ('m_flags',))
    on = {bt for bt in range(8) if flag_of(r, fl, bt) == TRUE}
    off = {bt for bt in range(6) if flag_of(r, fl, bt) == FALSE}
    c.ob('new', 'new contact is enabled and nothing else', on == {2} and off == {0, 1, 3, 4, 5}, 'flags %s' % E.show(fl, 4))
    expect_changes(c, 'new', 'new contact', r, {})
    s, v = sym('self'), sym('v')
    for f in ('friction', 'restitution', 'restitution_threshold', 'tangent_speed'):
        method(c, 'interface', P, CO + 'set_' + f, ['self', 'v'], want={s.at('m_' + f): v.num()})
        method(c, 'interface', P, CO + 'get_' + f, ['self'], ret=s.num('m_' + f))
        if f != 'tangent_speed':
            method(c, 'interface', P, CO + 'reset_' + f, ['self'], want={s.at('m_' + f): mixed(s.at('m_fixture_a'), s.at('m_fixture_b'))['m_' + f]})
    method(c, 'interface', P, CO + 'set_enabled', ['self', 'v'], want={'self.m_flags#2': v.bool()})
    method(c, 'interface', P, CO + 'is_enabled', ['self'], ret=s.flag(2, 'm_flags'))
    method(c, 'interface', P, CO + 'is_touching', ['self'], ret=s.flag(1, 'm_flags'))
    method(c, 'interface', P, CO + 'flag_for_filtering', ['self'], want={'self.m_flags#3': S(TRUE)})
    for f, k in (('get_child_index_a', 'm_index_a'), ('get_child_index_b', 'm_index_b')):
        method(c, 'interface', P, CO + f, ['self'], ret=s.num(k))
    for f, k in (('get_fixture_a', s.ptr('m_fixture_a')), ('get_fixture_b', s.ptr('m_fixture_b')), ('get_manifold', place(s, 'm_manifold')), ('get_manifold_mut', place(s, 'm_manifold'))):
        r = method(c, 'interface', P, CO + f, ['self'])
        c.ob('interface', f + ' result', r.ret == k, 'returns ' + E.show(r.ret, 3))
    r = method(c, 'interface', P, CO + 'get_next', ['self'])
    c.ob('interface', 'get_next result', r.ret in (s.at('m_next').n,), 'returns ' + E.show(r.ret, 4))
    # the world manifold is computed from this contact's bodies and shape radii, in order
    hooks = {'b2_collision::B2worldManifold::initialize': record('world manifold'), 'b2_shape::B2shapeDynTrait::get_base': record('shape base', lambda e, x, n: e.extend(x[0], 'base'))}
    r = summarise(c, P, CO + 'get_world_manifold', names=['self', 'wm'], hooks=hooks)
    xs = calls(r.effects, 'world manifold')
    np = ~panics(r)
    fa, fb = s.at('m_fixture_a'), s.at('m_fixture_b')
    if c.ob('interface', 'world manifold computed once', len(xs) == 1, str(len(xs))):
        x = xs[0]
        c.ob('interface', 'world manifold of this contact, always', x.args[0] == sym('wm').ptr() and x.args[1] == place(s, 'm_manifold') and E.AND(x.guard, np.n) == np.n, '%s' % [E.show(y, 3) for y in x.args])
        for i, f in ((2, fa), (4, fb)):
            for g in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
                got = r.eng.coerce_num(r.value(x.args[i], g, mem=x.mem))
                c.ob('interface', 'world manifold transform %d %s' % (i, '.'.join(g)), E.constrain(got, np.n) == body(f).num('m_xf', *g).n, 'is ' + E.show(got, 4))
            got = x.args[i + 1]
            c.ob('interface', 'world manifold radius %d' % i, E.constrain(got, np.n) == f.at('m_shape', *SOME).num('base', 'm_radius').n, 'is ' + E.show(got, 4))


def flag_of(r, v, bit):
    p = payload(v)
    if p[0] != 'flags':
        return None
    d = dict(p[2])
    if bit in d:
        return d[bit]
    return FALSE if p[1] is None else None
