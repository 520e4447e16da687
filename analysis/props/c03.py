"""Life cycle of contacts: creation, narrow phase gating, destruction."""
from ..spec import *
from .worldlib import *

CM = 'b2_contact_manager::B2contactManager::<D>::'
ADD = '<b2_contact_manager::B2contactManager<D> as b2_broad_phase::AddPairTrait<std::rc::Rc<std::cell::RefCell<b2_fixture::B2fixtureProxy<D>>>>>::add_pair'
LISTS = {DL + 'push_front': record('insert'), DL + 'remove': record('remove')}
AWAKE = {'b2_body::B2body::<D>::set_awake': record('wake')}
ASK = {'b2_body::B2body::<D>::should_collide': ask('should_collide', sym_args=True), 'b2_world_callbacks::B2contactFilter::should_collide': ask('user filter', drop=1),
       'b2_broad_phase::B2broadPhase::<UserDataType>::test_overlap': ask('overlap', sym_args=True, drop=1)}


def body(fix): return fix.at('m_body', *SOME)


def check(c):
    P = c.P
    add_pair(c, P)
    destroy(c, P)
    collide(c, P)


def add_pair(c, P):
    c.rule('create', 'a new pair yields exactly one registered contact unless same body, already in contact, or filtered')
    hooks = dict(LISTS, **ASK)
    hooks['b2_contact::B2contact::<D>::create'] = record('create', lambda e, a, n: sym('created').ptr())
    r = summarise(c, P, ADD, names=['self', 'pa', 'pb'], hooks=hooks)
    s, pa, pb = sym('self'), sym('pa'), sym('pb')
    fa, fb = deref(deref(pa).at('fixture')), deref(deref(pb).at('fixture'))
    ia, ib = deref(pa).num('child_index'), deref(pb).num('child_index')
    ba, bb = body(fa), body(fb)
    ls = loops(r)
    if not c.ob('create', 'one search for an existing contact', len(ls) == 1, '%d loops' % len(ls)):
        return
    L = ls[0]
    diff = ~peq(fa.ptr('m_body', *SOME), fb.ptr('m_body', *SOME))
    c.ob('create', 'the search happens for every pair of different bodies', E.AND(L.guard, (~panics(r)).n) == E.AND(diff.n, (~panics(r)).n), 'searches when ' + E.show(L.guard, 4))
    # either body's list will do
    got = None
    for here, there in ((bb, fa), (ba, fb)):
        for key, (i, m, n) in L.mus.items():
            if n is not None and E.constrain(i, L.guard) == here.at('m_contact_list', 'head').n:
                got = (here, there)
    if not c.ob('create', 'the search walks the contacts of one of the bodies', got is not None, 'walks %s' % [E.show(x[0], 4) for x in L.mus.values()]):
        return
    here, there = got
    sc = scan(c, 'create', 'the search', L, here.at('m_contact_list', 'head').n, ('next',))
    if sc is None:
        return
    cur, live = sc
    k = cur.at('contact', 'base')
    oth = peq(cur.ptr('other'), there.ptr('m_body', *SOME))
    xa, xb = k.ptr('m_fixture_a'), k.ptr('m_fixture_b')
    ja, jb = k.num('m_index_a'), k.num('m_index_b')
    pfa, pfb = deref(pa).ptr('fixture', *SOME), deref(pb).ptr('fixture', *SOME)
    same_pair = oth & ((peq(xa, pfa) & peq(xb, pfb) & ja.eq(ia) & jb.eq(ib)) | (peq(xa, pfb) & peq(xb, pfa) & ja.eq(ib) & jb.eq(ia)))
    inside = panics_in(L)
    early = FALSE
    for x in L.exits:
        early = E.OR(early, E.AND(x, live.n))
    u = diff & live & ~inside
    c.ob('create', 'the search ends early exactly at a contact of the same two fixture children, in either order', E.AND(early, u.n) == E.AND(same_pair.n, u.n),
         show_difference(E.constrain(early, u.n), E.constrain(same_pair.n, u.n)))
    ok = diff & ~live & uf('should_collide', ba_ptr(fa), ba_ptr(fb), sym_args=True)
    filt = s.at('m_contact_filter')
    okf = ok & (isnone(filt) | uf('user filter', pfa, pfb))
    np = ~panics(r)
    expect_calls(c, 'create', 'the body filter', r.effects, 'should_collide', [((None, None), diff & ~live)], under=np)
    expect_calls(c, 'create', 'the user filter', r.effects, 'user filter', [((None, pfa, pfb), ok & ~isnone(filt))], under=np)
    expect_calls(c, 'create', 'the new contact', r.effects, 'create', [((None, pfa, ia, pfb, ib), okf)], under=np)
    n = sym('created')
    nb = n.at('base')
    ch = changes(r)
    ea, eb = ch.get('created.base.m_node_a'), ch.get('created.base.m_node_b')
    if not c.ob('create', 'the new contact gets both its list entries', ea is not None and eb is not None, 'changed: %s' % sorted(ch)[:10]):
        return
    u = okf & np
    ea, eb = E.constrain(ea, u.n), E.constrain(eb, u.n)
    nfa, nfb = nb.at('m_fixture_a'), nb.at('m_fixture_b')
    pe = {}
    for nm, e_, f_, oth_ in (('first', ea, nfa, nfb), ('second', eb, nfb, nfa)):
        p = r.value(e_, SOME[:1])
        p = r.eng.field(r.eng.field(e_, SOME[0]), '0')
        pe[nm] = p
        c.ob('create', 'the %s entry names the contact and the other body' % nm, r.value(p, ('contact',)) == n.ptr() and r.value(p, ('other',)) == oth_.ptr('m_body', *SOME),
             'names %s and %s' % (E.show(r.value(p, ('contact',)), 3), E.show(r.value(p, ('other',)), 3)))
        for f in ('prev', 'next'):
            c.ob('create', 'the %s entry starts unlinked (%s)' % (nm, f), r.value(p, (f,)) == NONE.n, 'is ' + E.show(r.value(p, (f,)), 3))
    c.ob('create', 'the two list entries are different objects', pe['first'] != pe['second'], 'same object')
    expect_calls(c, 'create', 'registration', r.effects, 'insert', [((place(s, 'm_contact_list'), n.ptr()), okf), ((place(body(nfa), 'm_contact_list'), pe['first']), okf),
                                                                    ((place(body(nfb), 'm_contact_list'), pe['second']), okf)], under=np)
    expect_calls(c, 'create', 'registration', r.effects, 'remove', [])
    expect_changes(c, 'create', 'creating a contact', r, {s.at('m_contact_count'): s.num('m_contact_count') + ite(okf, k_(1), k_(0)), nb.at('m_node_a'): ite(okf, S(ea), raw(nb.at('m_node_a'))),
                                                          nb.at('m_node_b'): ite(okf, S(eb), raw(nb.at('m_node_b')))}, under=np)


def k_(x): return S(E.const(x))
def ba_ptr(f): return f.ptr('m_body', *SOME)


def panics_in(L):
    r = FALSE
    for x in L.sub:
        if x.kind == 'panic':
            r = E.OR(r, x.guard)
    return S(r)


def destroy(c, P):
    c.rule('destroy', 'destroying a contact notifies, unlinks it everywhere and wakes the bodies it pressed on')
    r = summarise(c, P, CM + 'destroy', names=['self', 'c'], hooks=dict(LISTS, **AWAKE))
    s, k = sym('self'), sym('c').at('base')
    np = ~panics(r)
    lst = s.at('m_contact_listener')
    fa, fb = k.at('m_fixture_a'), k.at('m_fixture_b')
    touching = k.flag(1, 'm_flags')
    told = ~isnone(lst) & touching
    ends = [x for x, _ in r.flat(kinds=('call',)) if x.name.endswith('B2contactListener::end_contact')]
    for x in ends:
        c.ob('destroy', 'end of contact is reported about the contact itself', k_ptr_in(x.args, sym('c')), 'about %s' % [E.show(a, 3) for a in x.args])
    tot = FALSE
    for x in ends:
        c.ob('destroy', 'end of contact is reported at most once', E.AND(tot, x.guard) == FALSE, 'twice when ' + E.show(x.guard, 3))
        tot = E.OR(tot, x.guard)
    c.ob('destroy', 'end of contact is reported exactly when touching and a listener is set', E.AND(tot, np.n) == E.AND(told.n, np.n), 'reported when ' + E.show(tot, 4))
    other = [x.name for x, _ in r.flat(kinds=('call',)) if 'B2contactListener' in x.name and not x.name.endswith('end_contact')]
    c.ob('destroy', 'no other event is reported', not other, str(other))
    tr = S(TRUE)
    expect_calls(c, 'destroy', 'unlinking', r.effects, 'remove', [((place(s, 'm_contact_list'), sym('c').ptr()), tr), ((place(body(fa), 'm_contact_list'), k.ptr('m_node_a', *SOME)), tr),
                                                                  ((place(body(fb), 'm_contact_list'), k.ptr('m_node_b', *SOME)), tr)], under=np)
    expect_calls(c, 'destroy', 'unlinking', r.effects, 'insert', [])
    # the listener may change the contact while it is told
    cnt = [x for x in r.effects if x.kind == 'call' and x.name == 'wake']
    for w in cnt:
        c.ob('destroy', 'bodies are woken, not put to sleep', w.args[1] == TRUE, 'flag %s' % E.show(w.args[1], 3))
    sens = fa.bool('m_is_sensor') | fb.bool('m_is_sensor')
    base = k.at('m_manifold').num('point_count')
    pressed = ite(told, S(E.gt(user_count(r, told, base).n, E.ZERO)), S(E.gt(base.n, E.ZERO))) & ~sens
    expect_calls(c, 'destroy', 'waking', r.effects, 'wake', [((fa.ptr('m_body', *SOME), None), pressed), ((fb.ptr('m_body', *SOME), None), pressed)], under=np)
    ch = {p: v for p, v in changes(r).items() if not (p.startswith('c.base.') and p.split('.')[2] in ('m_flags', 'm_friction', 'm_restitution', 'm_restitution_threshold', 'm_tangent_speed', 'm_manifold'))}
    expect_changes(c, 'destroy', 'destroying a contact', r, {s.at('m_contact_count'): s.num('m_contact_count') - k_(1)}, under=np, got=ch)
    # nothing else may touch the contact's own state except the listener
    w = [x for x in writes(r.effects) if E.showloc(*x.loc).startswith('c.base')]
    c.ob('destroy', 'the contact itself is not altered', not w, '; '.join(str(x)[:200] for x in w))


def k_ptr_in(args, o): return o.ptr() in args


def user_count(r, told, base):
    """the point count seen after the listener ran (it may have changed it)."""
    for x, _ in r.flat(kinds=('call',)):
        if x.name.endswith('end_contact'):
            break
    v = changes(r).get('c.base.m_manifold')
    if v is None:
        return base
    return S(r.eng.coerce_num(r.eng.field(E.constrain(v, told.n), 'point_count')))


def collide(c, P):
    c.rule('narrow phase', 'each step every contact is refiltered if flagged, dropped if filtered or no longer overlapping, updated if active, untouched otherwise')
    hooks = dict(LISTS, **ASK)
    hooks['b2_contact::B2contact::<D>::update'] = record('update')
    hooks[CM + 'destroy'] = record('destroy')
    r = summarise(c, P, CM + 'collide', names=['self'], hooks=hooks)
    s = sym('self')
    ls = loops(r)
    if not c.ob('narrow phase', 'one pass over the contacts, one over those to drop', len(ls) == 2, '%d loops' % len(ls)):
        return
    L, D = ls
    sc = scan(c, 'narrow phase', 'the pass', L, s.at('m_contact_list', 'head').n, ('base', 'm_next'))
    if sc is None:
        return
    cur, live = sc
    for x in L.exits:
        c.ob('narrow phase', 'the pass ends only after the last contact', E.AND(x, E.AND(live.n, (~panics_in(L)).n)) == FALSE, 'ends when ' + E.show(x, 4))
    k = cur.at('base')
    fa, fb = k.at('m_fixture_a'), k.at('m_fixture_b')
    ba, bb = body(fa), body(fb)
    filt = s.at('m_contact_filter')
    flagged = k.flag(3, 'm_flags')
    allowed = uf('should_collide', ba_ptr(fa), ba_ptr(fb), sym_args=True)
    user = isnone(filt) | uf('user filter', k.ptr('m_fixture_a'), k.ptr('m_fixture_b'))
    reject = flagged & ~(allowed & user)

    def active(b): return b.flag(1, 'm_flags') & ~b.at('m_type').is_(0, 3)
    act = active(ba) | active(bb)

    def proxy(f, i): return f.at('m_proxies', ('i', i.n)).num('proxy_id')
    ov = uf('overlap', proxy(fa, k.num('m_index_a')), proxy(fb, k.num('m_index_b')), sym_args=True)
    np = ~panics_in(L)
    go = live & ~reject & act
    expect_calls(c, 'narrow phase', 'the user filter', L.sub, 'user filter', [((None, k.ptr('m_fixture_a'), k.ptr('m_fixture_b')), live & flagged & allowed & ~isnone(filt))], under=np)
    expect_calls(c, 'narrow phase', 'updating', L.sub, 'update', [((cur.ptr(), S(payload_or(s.at('m_contact_listener')))), go & ov)], under=np)
    pushes = [x for x in L.sub if x.kind == 'push']
    tot = FALSE
    for x in pushes:
        c.ob('narrow phase', 'what is marked for destruction is the contact', E.constrain(x.args[1], x.guard) == cur.ptr(), 'marks ' + E.show(x.args[1], 3))
        c.ob('narrow phase', 'a contact is marked for destruction once', E.AND(tot, x.guard) == FALSE, 'twice when ' + E.show(x.guard, 3))
        tot = E.OR(tot, x.guard)
    want = live & (reject | (go & ~ov))
    c.ob('narrow phase', 'contacts are dropped exactly when filtered out or, if active, no longer overlapping', E.AND(tot, np.n) == E.AND(want.n, np.n),
         show_difference(E.constrain(tot, np.n), E.constrain(want.n, np.n)))
    # the only state written is the filter flag, cleared once filtering has passed
    w = [x for x in writes(L.sub) if outside(x)]
    clear = FALSE
    for x in w:
        ok = E.showloc(*x.loc) == E.showloc(*locof(k.at('m_flags')))
        c.ob('narrow phase', 'the pass changes nothing but the filter flag', ok, str(x)[:300])
        if ok:
            exp = k.at('m_flags')
            v = E.constrain(x.value, x.guard)
            good = flag_only(r.eng, v, exp, 3, False)
            c.ob('narrow phase', 'the filter flag is cleared and no other', good, 'becomes ' + E.show(v, 4))
            clear = E.OR(clear, x.guard)
    want = live & flagged & ~reject
    c.ob('narrow phase', 'the filter flag is cleared exactly when the filters passed', E.AND(E.AND(clear, np.n), (live & flagged).n) == E.AND(want.n, np.n) and E.AND(clear, E.AND((live & reject).n, np.n)) == FALSE,
         'cleared when ' + E.show(clear, 5))
    # the marked contacts are destroyed, each once
    ds = calls(D.sub, 'destroy')
    if c.ob('narrow phase', 'marked contacts are destroyed', len(ds) == 1, '%d destroy calls' % len(ds)):
        d = ds[0]
        cs = [S(m) for i, m, nx in D.mus.values() if nx is not None and i == E.ZERO and E.constrain(nx, D.e.info['back_pc']) == E.add(m, E.ONE)]
        ok = False
        for x in cs:
            for key, (ini, m, nx) in L.mus.items():
                el = Obj(m).at(('i', x.n))
                ln = Obj(m).num('len')
                if E.constrain(d.args[1], d.guard) in (el.n, el.ptr(), place(Obj(m), ('i', x.n))):
                    more = x < ln
                    back = D.e.info['back_pc']
                    g, fine = S(D.guard), (~panics_in(D)).n
                    fine = E.AND(fine, (ln > k_(0)).n)
                    ok = E.AND(back, fine) == E.AND((more & g).n, fine) == E.AND(d.guard, fine) and E.AND((~g).n, fine) == FALSE
        c.ob('narrow phase', 'every marked contact is destroyed, each once', ok, 'destroys %s when %s' % (E.show(d.args[1], 4), E.show(d.guard, 4)))
    expect_calls(c, 'narrow phase', 'during the pass', L.sub, 'destroy', [])
    expect_changes(c, 'narrow phase', 'the narrow phase (outside the contacts)', r, {})


def payload_or(o): return o.n


def locof(o):
    keys = []
    n = o.n
    while payload(n)[0] == 'proj':
        keys.append(payload(n)[2])
        n = payload(n)[1]
    from ..spec import initial_of
    return (payload(o.ptr())[1], payload(o.ptr())[2])


def flag_only(eng, v, old, bit, val):
    p = payload(v) if is_term(v) else None
    if p is None or p[0] != 'flags':
        return False
    return p[1] == old.n and tuple(p[2]) == ((bit, TRUE if val else FALSE),)


