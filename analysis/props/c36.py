"""Life cycle of joints: creation from a definition, registration, destruction."""
from ..spec import *
from .worldlib import *
from .c03 import AWAKE, LISTS, k_, flag_only, locof

W = 'private::dynamics::b2_world::'
KINDS = ('Distance', 'Friction', 'Gear', 'Mouse', 'Motor', 'Pulley', 'Revolute', 'Prismatic', 'Weld', 'Wheel')
CREATE = 'b2_joint::B2joint::<D>::create'


def check(c):
    P = c.P
    dispatch(c, P)
    create(c, P)
    destroy(c, P)
    accessors(c, P)


def dispatch(c, P):
    c.rule('dispatch', 'each kind of definition builds the joint of that kind from that definition')
    hooks = {}
    for k in KINDS:
        l = k.lower()
        hooks['joints::b2_%s_joint::B2%sJoint::<D>::new' % (l, l)] = record('new ' + l, lambda e, a, n, l=l: sym('made_' + l).n)
    r = summarise(c, P, CREATE, names=['def'], hooks=hooks)
    no_panic(c, 'dispatch', 'creating a joint object', r)
    d = sym('def')
    for i, k in enumerate(KINDS):
        l = k.lower()
        u = d.is_(i, len(KINDS))
        expect_calls(c, 'dispatch', k, r.effects, 'new ' + l, [((place(d, ('d', k + 'Joint'), '0'),), u)])
        got = r.value(E.constrain(r.ret, u.n), ())
        c.ob('dispatch', k + ': the new joint is returned', got == sym('made_' + l).n or r.value(E.constrain(r.ret, u.n), ('base', 'm_index')) == sym('made_' + l).num('base', 'm_index').n, 'returns ' + E.show(got, 3))
    expect_changes(c, 'dispatch', 'creating a joint object', r, {})


def flagged(c, rule, lab, L, ba, bb, off, r, under, pba):
    """the loop flags exactly the contacts between the two bodies."""
    np = ~panics(r)
    g = E.AND(L.guard, E.AND(under.n, np.n))
    c.ob(rule, lab + ': contacts are visited exactly when the joint forbids collision', g == E.AND(off.n, E.AND(under.n, np.n)), 'visited when ' + E.show(g, 4)[:300])
    for here, there, pt in ((bb, ba, pba[0]), (ba, bb, pba[1])):
        hit = None
        for key, (i, s, n) in L.mus.items():
            if n is not None and E.constrain(i, g) == E.constrain(here.at('m_contact_list', 'head').n, g):
                hit = s, n
        if hit:
            break
    if not c.ob(rule, lab + ': the contacts of one of the bodies are walked', hit is not None, [E.show(E.constrain(x[0], g), 4)[:120] for x in L.mus.values()][:3]):
        return
    s, n = hit
    cur, live = deref(Obj(s)), ~isnone(Obj(s))
    back = E.AND(L.e.info['back_pc'], g)
    c.ob(rule, lab + ': every contact is visited', E.constrain(n, back) == E.constrain(cur.at('next').n, back), 'continues with ' + E.show(E.constrain(n, back), 4)[:200])
    inside = ~panics_in(L)
    c.ob(rule, lab + ': the walk never stops early', all(E.AND(E.AND(x, live.n), E.AND(g, inside.n)) == FALSE for x in L.exits), 'stops early')
    k = cur.at('contact', 'base')
    want = off & live & peq(cur.ptr('other'), pt)
    tot = FALSE
    for x in writes(L.sub):
        if not outside(x) or E.AND(x.guard, g) == FALSE:
            continue
        ok = E.showloc(*x.loc) == E.showloc(*locof(k.at('m_flags'))) and flag_only(r.eng, E.constrain(x.value, E.AND(x.guard, g)), k.at('m_flags'), 3, True)
        c.ob(rule, lab + ': only the filter flag of a contact is set', ok, str(x)[:250])
        tot = E.OR(tot, x.guard)
    u = E.AND(g, inside.n)
    c.ob(rule, lab + ': exactly the contacts between the two bodies are flagged', E.AND(tot, u) == E.AND(want.n, u), show_difference(E.constrain(tot, u), E.constrain(want.n, u)))


def create(c, P):
    c.rule('create', 'a new joint is registered with the world and both bodies, and disables existing contacts if it forbids collision')
    d, w, j = sym('def'), sym('world'), sym('joint')

    def made(e, fr, st, args, tys, dt, line, fop):
        from ..engine import Effect
        e.effects.append(Effect('call', st.pc, fr.path, line, name='make', args=list(args), ret=j.ptr(), mem=dict(st.mem), argtys=tys, info={'rec': True}))
        for f, src in (('m_body_a', lambda b: b.ptr('body_a', *SOME)), ('m_body_b', lambda b: b.ptr('body_b', *SOME)), ('m_collide_connected', lambda b: b.bool('collide_connected').n)):
            v = src(d.at(('d', KINDS[-1] + 'Joint'), '0', 'base'))
            for i in reversed(range(len(KINDS) - 1)):
                v = ite(d.is_(i, len(KINDS)), S(src(d.at(('d', KINDS[i] + 'Joint'), '0', 'base'))), S(v)).n
            e.store(st, place(j, 'base', f), v)
        return j.ptr()
    r = summarise(c, P, W + 'create_joint', names=['world', 'def'], hooks=dict(LISTS, **dict(AWAKE, **{CREATE: made})))
    np = ~panics(r)
    lock = w.bool('m_locked')
    c.ob('create', 'creating a joint in an unlocked world with two bodies never fails', E.AND(panics_top(r).n, (~lock & ~nobody(r, d)).n) == FALSE, 'fails when ' + E.show(E.AND(panics_top(r).n, (~lock).n), 5)[:300])
    c.ob('create', 'the new joint is returned', E.constrain(r.ret, np.n) == j.ptr(), E.show(r.ret, 3))
    ch = changes(r)
    jb = j.at('base')
    ls = loops(r)
    if not c.ob('create', 'one pass over the contacts', len(ls) == 1, '%d loops' % len(ls)):
        return
    for i, k in enumerate(KINDS):
        u = d.is_(i, len(KINDS))
        un = u & np
        db = d.at(('d', k + 'Joint'), '0', 'base')
        pa, pb = db.ptr('body_a', *SOME), db.ptr('body_b', *SOME)
        ba, bb = deref(db.at('body_a')), deref(db.at('body_b'))
        entries = {}
        for x, me, oth in (('a', ba, pb), ('b', bb, pa)):
            v = ch.get('joint.base.m_edge_' + x)
            if not c.ob('create', '%s: the joint gets its entry for body %s' % (k, x.upper()), v is not None, 'changed: %s' % sorted(ch)[:8]):
                return
            v = E.constrain(v, un.n)
            p = r.eng.field(r.eng.field(v, SOME[0]), '0')
            entries[x] = p
            c.ob('create', '%s: entry %s names the joint and the other body' % (k, x.upper()), r.value(p, ('joint',)) == j.ptr() and E.constrain(r.value(p, ('other',)), un.n) == oth,
                 'names %s and %s' % (E.show(r.value(p, ('joint',)), 3), E.show(E.constrain(r.value(p, ('other',)), un.n), 3)))
            for f in ('prev', 'next'):
                c.ob('create', '%s: entry %s starts unlinked (%s)' % (k, x.upper(), f), r.value(p, (f,)) == NONE.n, 'is ' + E.show(r.value(p, (f,)), 3))
        c.ob('create', k + ': two different entries', entries['a'] != entries['b'], 'shared')
        T = S(u.n)
        expect_calls(c, 'create', k, r.effects, 'insert', [((place(w, 'm_joint_list'), j.ptr()), T), ((place(ba, 'm_joint_list'), entries['a']), T), ((place(bb, 'm_joint_list'), entries['b']), T)], under=un)
        flagged(c, 'create', k, ls[0], ba, bb, ~db.bool('collide_connected'), r, u, (pa, pb))
    expect_calls(c, 'create', 'creating a joint', r.effects, 'make', [((d.ptr(),), S(TRUE))], under=np)
    expect_calls(c, 'create', 'creating a joint', r.effects, 'remove', [])
    expect_calls(c, 'create', 'creating a joint wakes nobody:', r.effects, 'wake', [])
    expect_changes(c, 'create', 'creating a joint', r, {w.at('m_joint_count'): w.num('m_joint_count') + k_(1)}, under=np, ignore=tuple('joint.base.' + f for f in ('m_edge_a', 'm_edge_b', 'm_body_a', 'm_body_b', 'm_collide_connected')))


def nobody(r, d):
    """some body is missing from the definition (or an entry of a contact list points nowhere)."""
    t = FALSE
    for i, k in enumerate(KINDS):
        db = d.at(('d', k + 'Joint'), '0', 'base')
        t = E.OR(t, E.AND(d.is_(i, len(KINDS)).n, E.OR(isnone(db.at('body_a')).n, isnone(db.at('body_b')).n)))
    return S(t)


def destroy(c, P):
    c.rule('destroy', 'destroying a joint unlinks it everywhere, wakes both bodies and re-enables their contacts')
    r = summarise(c, P, W + 'destroy_joint', names=['world', 'j'], hooks=dict(LISTS, **AWAKE))
    w, j = sym('world'), sym('j')
    jb = j.at('base')
    np = ~panics(r)
    T = S(TRUE)
    ba, bb = jb.at('m_body_a'), jb.at('m_body_b')
    bad = w.bool('m_locked') | isnone(jb.at('m_edge_a')) | isnone(jb.at('m_edge_b')) | ~(w.num('m_joint_count') > k_(0))
    c.ob('destroy', 'destroying a registered joint of an unlocked world never fails', E.AND(panics_top(r).n, (~bad).n) == FALSE, 'fails when ' + E.show(E.AND(panics_top(r).n, (~bad).n), 5)[:300])
    expect_calls(c, 'destroy', 'unlinking', r.effects, 'remove', [((place(w, 'm_joint_list'), j.ptr()), T), ((place(ba, 'm_joint_list'), jb.ptr('m_edge_a', *SOME)), T), ((place(bb, 'm_joint_list'), jb.ptr('m_edge_b', *SOME)), T)], under=np)
    expect_calls(c, 'destroy', 'unlinking', r.effects, 'insert', [])
    expect_calls(c, 'destroy', 'waking', r.effects, 'wake', [((jb.ptr('m_body_a'), T), T), ((jb.ptr('m_body_b'), T), T)], under=np)
    ls = loops(r)
    if c.ob('destroy', 'one pass over the contacts', len(ls) == 1, '%d loops' % len(ls)):
        flagged(c, 'destroy', 'destroying a joint', ls[0], ba, bb, ~jb.bool('m_collide_connected'), r, T, (jb.ptr('m_body_a'), jb.ptr('m_body_b')))
    expect_changes(c, 'destroy', 'destroying a joint', r, {w.at('m_joint_count'): w.num('m_joint_count') - k_(1)}, under=np)


def accessors(c, P):
    c.rule('accessor', 'each joint accessor returns its own field')
    s = sym('self')
    B = 'b2_joint::B2joint::<D>::'
    for f, ret in (('get_type', s.at('m_type').n), ('get_body_a', s.ptr('m_body_a')), ('get_body_b', s.ptr('m_body_b')), ('get_collide_connected', s.bool('m_collide_connected').n), ('get_user_data', s.at('m_user_data').n)):
        r = summarise(c, P, B + f, names=['self'])
        c.ob('accessor', f, r.ret == ret, 'returns ' + E.show(r.ret, 4))
        expect_changes(c, 'accessor', f, r, {})
    r = summarise(c, P, B + 'is_enabled', names=['self'])
    want = S(TRUE)
    for x in ('m_body_a', 'm_body_b'):
        want = want & s.flag(5, x, 'm_flags')
    c.ob('accessor', 'is_enabled', r.ret == want.n, show_difference(r.ret, want.n))
    expect_changes(c, 'accessor', 'is_enabled', r, {})
    r = summarise(c, P, B + 'set_user_data', names=['self', 'data'])
    v = changes(r)
    c.ob('accessor', 'set_user_data stores the data and nothing else', set(v) == {'self.m_user_data'} and sym('data').n in (v['self.m_user_data'], r.value(v['self.m_user_data'], SOME)), str({a: E.show(b, 3) for a, b in v.items()})[:200])
