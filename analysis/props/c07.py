"""Collision filtering: default filter, bodies and joints, refiltering."""
from ..spec import *
from .worldlib import *
from .c03 import body, k_, flag_only, locof
from ..engine import UNIT

FX = 'b2_fixture::B2fixture::<D>::'
TOUCH = {'b2_broad_phase::B2broadPhase::<UserDataType>::touch_proxy': record('touch')}


def check(c):
    P = c.P
    c.rule('default', 'equal non-zero groups decide by sign, otherwise both masks must admit the other category')
    fa, fb = sym('fa').at('m_filter'), sym('fb').at('m_filter')
    for path, names in (('private::dynamics::b2_world_callbacks::should_collide', ['fa', 'fb']), ('b2_world_callbacks::B2contactFilter::should_collide', ['self', 'fa', 'fb'])):
        r = summarise(c, P, path, names=names)
        no_panic(c, 'default', path.split('::')[-2], r)
        ga, gb = fa.num('group_index'), fb.num('group_index')

        def both(x, y): return ~S(E.eqnum(bitand(r, x, y).n, E.ZERO))
        m1, m2 = fa.num('mask_bits'), fb.num('mask_bits')
        c1, c2 = fa.num('category_bits'), fb.num('category_bits')
        masks = both(m1, c2) & both(c1, m2)
        want = ite(ga.eq(gb) & ~ga.eq(k_(0)), ga > k_(0), masks)
        # masks are unsigned
        dom = unsigned(r, (m1, c2)) & unsigned(r, (c1, m2)) & coherent(ga, gb)
        g, w = E.constrain(r.ret, dom.n), E.constrain(want.n, dom.n)
        c.ob('default', 'default filter (%s)' % path.split('::')[-2], g == w, show_difference(g, w))
        expect_changes(c, 'default', path.split('::')[-2], r, {})
    bodies(c, P)
    refilter(c, P)


def bitand(r, a, b):
    x, y = sorted((a.n, b.n))
    from ..engine import Engine
    for o in ((a.n, b.n), (b.n, a.n)):
        pass
    return S(E.numapp('BitAnd', a.n, b.n))


def unsigned(r, p):
    return ~S(E.lt(bitand(r, *p).n, E.ZERO))


def coherent(a, b):
    """facts about the order of two numbers and zero that the diagrams do not know."""
    d = a - b
    out = S(TRUE)
    for x in (d, a):
        out = out & ~(S(E.lt(x.n, E.ZERO)) & S(E.eqnum(x.n, E.ZERO)))
    return out


def bodies(c, P):
    c.rule('bodies', 'two bodies may collide when one is dynamic and no joint between them forbids it')
    r = summarise(c, P, 'b2_body::B2body::<D>::should_collide', names=['self', 'other'])
    s, o = sym('self'), sym('other')

    def dyn(b): return ~b.at('m_type').is_(0, 3) & ~b.at('m_type').is_(1, 3)
    ls = loops(r)
    if not c.ob('bodies', 'one pass over the joints', len(ls) == 1, '%d loops' % len(ls)):
        return
    L = ls[0]
    one = dyn(s) | dyn(o)
    c.ob('bodies', 'joints matter only if one body is dynamic', L.guard == one.n, E.show(L.guard, 4))
    sc = scan(c, 'bodies', 'the pass', L, s.at('m_joint_list', 'head').n, ('next',))
    if sc is None:
        return
    cur, live = sc
    forbids = peq(cur.ptr('other'), o.ptr()) & ~cur.at('joint', 'base').bool('m_collide_connected')
    np = ~panics_in(L)
    early = FALSE
    for x in L.exits:
        early = E.OR(early, E.AND(x, live.n))
    u = one & live & np
    c.ob('bodies', 'the pass stops early exactly at a joint to the other body that forbids collision', E.AND(early, u.n) == E.AND(forbids.n, u.n), show_difference(E.constrain(early, u.n), E.constrain(forbids.n, u.n)))
    np = ~panics(r)
    got = E.AND(r.ret, np.n)
    # after the loop: true exactly when it ran to the end
    want = one & ~live
    u = np & one & ~(live & ~forbids)
    c.ob('bodies', 'collision allowed exactly when a body is dynamic and no joint forbids it', E.constrain(r.ret, u.n) == E.constrain(want.n, u.n) and E.AND(r.ret, (~one).n) == FALSE,
         show_difference(E.constrain(r.ret, u.n), E.constrain(want.n, u.n)))
    expect_changes(c, 'bodies', 'asking', r, {}, under=np)
    untouched(c, 'bodies', 'asking', r.effects)


def refilter(c, P):
    c.rule('refilter', 'changing the filter stores it, flags exactly the contacts of this fixture and marks all its proxies for pairing')
    s = sym('self')
    for path, names, sets in ((FX + 'refilter', ['self'], False), (FX + 'set_filter_data', ['self', 'filter'], True)):
        lab = path.split('::')[-1]
        r = summarise(c, P, path, names=names, hooks=TOUCH)
        has = ~isnone(s.at('m_body'))
        b = body(s)
        ls = loops(r)
        if not c.ob('refilter', lab + ': a pass over contacts and one over proxies', len(ls) == 2, '%d loops' % len(ls)):
            continue
        byhead = [L for L in ls if any(i == b.at('m_contact_list', 'head').n for i, _, _ in L.mus.values())]
        if not c.ob('refilter', lab + ': the contacts of its body are visited', len(byhead) == 1, str(len(byhead))):
            continue
        L = byhead[0]
        M = [x for x in ls if x is not L][0]
        np = ~panics(r)
        sc = scan(c, 'refilter', lab + ': contact pass', L, b.at('m_contact_list', 'head').n, ('next',))
        if sc is None:
            continue
        cur, live = sc
        pin = ~panics_in(L)
        c.ob('refilter', lab + ': contact pass happens whenever attached', E.AND(L.guard, np.n) == E.AND(has.n, np.n), E.show(L.guard, 4))
        for x in L.exits:
            c.ob('refilter', lab + ': the pass does not stop early', E.AND(x, E.AND(live.n, pin.n)) == FALSE, E.show(x, 4))
        k = cur.at('contact', 'base')
        mine = peq(k.ptr('m_fixture_a'), s.ptr()) | peq(k.ptr('m_fixture_b'), s.ptr())
        tot = FALSE
        for x in writes(L.sub):
            if not outside(x):
                continue
            ok = E.showloc(*x.loc) == E.showloc(*locof(k.at('m_flags'))) and flag_only(r.eng, E.constrain(x.value, x.guard), k.at('m_flags'), 3, True)
            c.ob('refilter', lab + ': only the filter flag is set', ok, str(x)[:250])
            tot = E.OR(tot, x.guard)
        w = has & live & mine
        c.ob('refilter', lab + ': exactly the contacts of this fixture are flagged', E.AND(tot, pin.n) == E.AND(w.n, pin.n), show_difference(E.constrain(tot, pin.n), E.constrain(w.n, pin.n)))
        sc = counted(c, 'refilter', lab + ': proxy pass', M, s.num('m_proxy_count'))
        if sc is None:
            continue
        i, live = sc
        bp = b.at('m_world', 'm_contact_manager', 'm_broad_phase')
        expect_calls(c, 'refilter', lab + ': every proxy is marked', M.sub, 'touch', [((bp.ptr(), s.at('m_proxies', ('i', i.n)).num('proxy_id')), has & live)], under=~panics_in(M))
        expect_changes(c, 'refilter', lab, r, {s.at('m_filter', g): sym('filter').num(g) for g in ('category_bits', 'mask_bits', 'group_index')} if sets else {}, under=np)
