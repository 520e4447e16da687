"""Joint readings: anchors, coordinates, speeds, reactions and parameter accessors."""
from .jointapi import *


def check(c):
    c.rule('reads', 'the accessor returns exactly the specified function of joint and body state, never panics and changes nothing')
    for jt in ALL:
        check_values(c, c.P, jt)
    P = c.P
    base = 'b2_joint::B2joint::<D>::'
    s = sym('self')
    r = summarise(c, P, base + 'is_enabled', names=['self'])
    from .bodylib import ENABLED
    c.ob('reads', 'joint is_enabled', same(r.ret, Body(s.at('m_body_a')).flag(ENABLED) & Body(s.at('m_body_b')).flag(ENABLED)), E.show(r.ret))
    r = summarise(c, P, base + 'get_collide_connected', names=['self'])
    c.ob('reads', 'joint get_collide_connected', same(r.ret, s.bool('m_collide_connected')), E.show(r.ret))
    for x in 'ab':
        r = summarise(c, P, base + 'get_body_' + x, names=['self'])
        c.ob('reads', 'joint get_body_' + x, r.ret == s.ptr('m_body_' + x), E.show(r.ret))
    for m, f in (('get_type', 'm_type'), ('get_user_data', 'm_user_data')):
        r = summarise(c, P, base + m, names=['self'])
        c.ob('reads', 'joint ' + m, r.ret == s.at(f).n, E.show(r.ret))
    for j in ALL:
        for m in ('get_base', 'get_base_mut'):
            r = summarise(c, P, J % (j.name, j.name, m), names=['self'])
            c.ob('reads', '%s %s' % (j.name, m), r.ret == term(('ptr', ('H', s.n), ('base',))), E.show(r.ret))
