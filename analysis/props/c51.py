"""World settings, listeners, counts and lists."""
from ..spec import *
from .worldlib import *
from .c03 import k_

W = 'b2_world::B2world::<D>::'
MG = ('m_contact_manager',)
BPH = MG + ('m_broad_phase',)
TREE = BPH + ('m_tree',)


def check(c):
    P = c.P
    w = sym('world')
    c.rule('settings', 'every setting is read back as written, and writing one changes nothing else')
    for name, key in (('warm_starting', 'm_warm_starting'), ('continuous_physics', 'm_continuous_physics'), ('sub_stepping', 'm_sub_stepping'), ('auto_clear_forces', 'm_clear_forces')):
        r = summarise(c, P, W + 'set_' + name, names=['world', 'flag'])
        expect_changes(c, 'settings', 'set ' + name, r, {'world.' + key: sym('flag').bool()})
        no_panic(c, 'settings', 'set ' + name, r)
    r = summarise(c, P, W + 'set_gravity', names=['world', 'g'])
    expect_changes(c, 'settings', 'set gravity', r, {'world.m_gravity': sym('g').vec()})
    no_panic(c, 'settings', 'set gravity', r)
    for name, key in (('get_warm_starting', ('m_warm_starting',)), ('get_continuous_physics', ('m_continuous_physics',)), ('get_sub_stepping', ('m_sub_stepping',)), ('get_auto_clear_forces', ('m_clear_forces',)),
                      ('get_allow_sleeping', ('m_allow_sleep',)), ('is_locked', ('m_locked',)), ('get_gravity', ('m_gravity',)), ('get_profile', ('m_profile',)),
                      ('get_body_count', ('m_body_count',)), ('get_joint_count', ('m_joint_count',)), ('get_contact_count', MG + ('m_contact_count',)), ('get_proxy_count', BPH + ('m_proxy_count',)),
                      ('get_body_list', ('m_body_list',)), ('get_joint_list', ('m_joint_list',)), ('get_contact_list', MG + ('m_contact_list',))):
        r = summarise(c, P, W + name, names=['world'])
        if name.endswith('_list'):
            g, v = r.value(r.ret, ('head',)), w.at(*key, 'head').n
        else:
            g, v = r.ret, w.bool(*key).n if E.isbool(r.ret) else w.at(*key).n
        c.ob('settings', name, same(g, v), E.show(g, 3)[:200])
        expect_changes(c, 'settings', name, r, {})
        no_panic(c, 'settings', name, r)
    r = summarise(c, P, W + 'get_contact_manager', names=['world'])
    c.ob('settings', 'contact manager', r.ret == w.ptr(*MG), E.show(r.ret, 3))
    expect_changes(c, 'settings', 'contact manager', r, {})

    c.rule('sleep', 'forbidding sleep wakes every body; a setting that does not change does nothing')
    r = summarise(c, P, W + 'set_allow_sleeping', names=['world', 'flag'], hooks=PARTS)
    f, old = sym('flag').bool(), w.bool('m_allow_sleep')
    expect_changes(c, 'sleep', 'allow sleeping', r, {'world.m_allow_sleep': f})
    no_panic(c, 'sleep', 'allow sleeping', r)
    head = w.at('m_body_list', 'head')
    L = pick(c, 'sleep', 'wake all', loops(r), head)
    if L:
        k = walk(c, 'sleep', 'wake all', L, head, ('m_next',), ~f & old, S(TRUE)) if E.AND(L.guard, (~(~f & old)).n) == FALSE else walk(c, 'sleep', 'wake all', L, head, ('m_next',), ~f, S(TRUE))
        if k:
            b, live = k
            expect_calls(c, 'sleep', 'wake all', L.sub, 'wake', [((b.ptr(), TRUE), S(L.guard) & live)], under=live & S(L.guard))
    expect_calls(c, 'sleep', 'allow sleeping', r.effects, 'wake', [])

    c.rule('listeners', 'a listener, filter or drawer given to the world replaces the one in its own slot only')
    for name, key in (('set_destruction_listener', ('m_destruction_listener',)), ('set_debug_draw', ('m_debug_draw',)), ('set_contact_listener', MG + ('m_contact_listener',)), ('set_contact_filter', MG + ('m_contact_filter',))):
        r = summarise(c, P, W + name, names=['world', 'l'])
        ch = {E.showloc(*x.loc) for x in writes(r.effects) if outside(x)}
        g = r.value(w.at(*key[:-1]).ptr() if len(key) > 1 else w.ptr(), key[-1:])
        c.ob('listeners', name, ch == {'world.' + '.'.join(key)} and g == some(sym('l').ptr()).n, '%s := %s' % (ch, E.show(g, 3)))
        no_panic(c, 'listeners', name, r)

    c.rule('new', 'a new world is empty, unlocked, with the given gravity and the documented settings')
    r = summarise(c, P, W + 'new', names=['g'])
    no_panic(c, 'new', 'new', r)

    def val(*keys): return r.value(r.ret, keys)
    for k, v in (('m_warm_starting', TRUE), ('m_continuous_physics', TRUE), ('m_sub_stepping', FALSE), ('m_step_complete', TRUE), ('m_allow_sleep', TRUE), ('m_new_contacts', FALSE), ('m_locked', FALSE), ('m_clear_forces', TRUE),
                 ('m_inv_dt0', E.ZERO), ('m_body_count', E.ZERO), ('m_joint_count', E.ZERO), ('m_destruction_listener', NONE.n), ('m_debug_draw', NONE.n)):
        c.ob('new', k[2:].replace('_', ' '), same(val(k), v), E.show(val(k), 3))
    for ax in 'xy':
        c.ob('new', 'gravity ' + ax, same(val('m_gravity', ax), sym('g').num(ax).n), E.show(val('m_gravity', ax), 3))
    for k, v in ((('m_body_list', 'head'), NONE.n), (('m_joint_list', 'head'), NONE.n), (MG + ('m_contact_list', 'head'), NONE.n), (MG + ('m_contact_count',), E.ZERO), (BPH + ('m_proxy_count',), E.ZERO), (BPH + ('m_move_count',), E.ZERO),
                 (TREE + ('m_root',), E.const(-1)), (TREE + ('m_node_count',), E.ZERO), (TREE + ('m_free_list',), E.ZERO)):
        g = deepval(r, k)
        c.ob('new', '.'.join(k), same(g, v), E.show(g, 3))


def deepval(r, keys):
    """value reached through owning pointers created by the function itself."""
    p = r.ret
    cur = []
    for k in keys:
        cur.append(k)
        v = r.value(p, tuple(cur))
        if k in ('m_contact_manager', 'm_broad_phase'):
            p, cur = v, []
    return r.value(p, tuple(cur))
