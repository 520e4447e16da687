"""Island building: which bodies, contacts and joints are solved together."""
from ..spec import *
from .worldlib import *
from .bodylib import AWAKE, ENABLED

W = 'b2_world::B2world::<D>::'
I = 'private::dynamics::b2_island::B2island::<D>::'
ISLAND = 0
C_ISLAND, C_TOUCH, C_ENABLED = 0, 1, 2


def members(e, fr, st, args, tys, dt, line, fop):
    """the island's own solve: noted; afterwards its member list is whatever was added."""
    v = record('island solve')(e, fr, st, args, tys, dt, line, fop)
    e.store(st, e.extend(args[0], 'm_bodies'), sym('members').n)
    return v


HOOKS = {MGR + 'find_new_contacts': record('pairs'), I + 'add_body': record('add body'), I + 'add_contact': record('add contact'), I + 'add_joint': record('add joint'), I + 'clear': record('empty'), I + 'solve': members,
         BDM + 'synchronize_fixtures_by_world': record('sync'), BDM + 'synchronize_fixtures': record('sync'),
         BDM + 'set_awake': record('wake'), I + 'new': record('make', lambda e, a, n: sym('island').n)}


def check(c):
    P = c.P
    add(c, P)
    w = sym('world')
    r = summarise(c, P, W + 'solve', names=['world', 'step'], hooks=HOOKS)
    e = r.eng
    bodies, joints, contacts = w.at('m_body_list', 'head'), w.at('m_joint_list', 'head'), w.at('m_contact_manager', 'm_contact_list', 'head')
    top = loops(r)

    c.rule('room', 'an island has room for every body and reports to the world\'s contact listener')
    expect_calls(c, 'room', 'island', r.effects, 'make', [((None, None, None, w.at('m_contact_manager', 'm_contact_listener').n), S(TRUE))])
    for x in calls(r.effects, 'make'):
        c.ob('room', 'sized for all bodies', same(x.args[0], w.num('m_body_count').n), E.show(x.args[0], 3))
    c.rule('clear', 'before islands are built, no body, contact or joint is marked as belonging to one')
    mine = {}
    for lab, head, link in (('bodies', bodies, ('m_next',)), ('contacts', contacts, ('base', 'm_next')), ('joints', joints, ('base', 'm_next'))):
        hits = [L for L in top if starts(L, head) is not None and not calls(L.sub, 'sync') and not inner(L)]
        c.ob('clear', lab + ': one pass', len(hits) == 1, '%d passes' % len(hits))
        for L in hits[:1]:
            mine[lab] = L
            k = walk(c, 'clear', lab, L, head, link, S(TRUE), S(TRUE))
            if k:
                o, live = k
                fl = o.at('m_flags') if lab == 'bodies' else o.at('base', 'm_flags') if lab == 'contacts' else o.at('base', 'm_island_flag')
                flag_changes(c, 'clear', lab, e, L.sub, [(fl, {0: (S(TRUE), S(FALSE))}) if lab != 'joints' else (fl, S(FALSE))], live)
    seeds = [L for L in top if starts(L, bodies) is not None and inner(L)]
    c.rule('seed', 'an island starts at every awake, enabled, non-static body not yet in one, and is solved once it is complete')
    if not c.ob('seed', 'one pass over the bodies', len(seeds) == 1, '%d passes' % len(seeds)):
        return
    L = seeds[0]
    idx = {id(x): i for i, x in enumerate(r.effects)}
    for lab, M in mine.items():
        c.ob('clear', lab + ' are cleared first', idx[id(M.e)] < idx[id(L.e)], '')
    k = walk(c, 'seed', 'seeds', L, bodies, ('m_next',), S(TRUE), S(TRUE))
    if not k:
        return
    b, live = k
    fl = b.at('m_flags')
    fine = ~deep_panics(L.sub)
    ok = live & ~b.flag(ISLAND, 'm_flags') & b.flag(AWAKE, 'm_flags') & b.flag(ENABLED, 'm_flags') & ~b.at('m_type').is_(0, 3)
    u = live & fine
    expect_calls(c, 'seed', 'island', L.sub, 'empty', [((None,), ok)], under=u)
    expect_calls(c, 'seed', 'island', L.sub, 'island solve', [((None, None, None, sym('world').at('m_gravity').n, w.bool('m_allow_sleep').n), ok)], under=u)
    for x in calls(L.sub, 'island solve'):
        a = x.args[2]
        for f in ('dt', 'inv_dt', 'dt_ratio'):
            v = r.value(a, (f,), mem=x.mem)
            c.ob('seed', 'the island gets the step\'s ' + f, same(v, sym('step').num(f).n), E.show(v, 3))
        for f in ('velocity_iterations', 'position_iterations'):
            v = r.value(a, (f,), mem=x.mem)
            c.ob('seed', 'the island gets the step\'s ' + f, same(v, sym('step').num(f).n), E.show(v, 3))
        v = r.value(a, ('warm_starting',), mem=x.mem)
        c.ob('seed', 'the island gets warm starting', same(v, sym('step').bool('warm_starting').n), E.show(v, 3))
    flag_changes(c, 'seed', 'seed', e, L.sub, [(fl, {ISLAND: (ok, S(TRUE))})], u, ignore=('world.m_profile',))
    ins = inner(L)
    grow = [M for M in ins if any(y.kind == 'call' and y.name == 'add body' for y in M.sub)]
    c.ob('seed', 'one growth pass per island', len(grow) == 1, '%d' % len(grow))
    isl = {E.show(x.args[0], 3) for x in every(L.sub) if x.kind == 'call' and x.name in ('empty', 'add body', 'add contact', 'add joint', 'island solve')}
    c.ob('seed', 'one island throughout', len(isl) == 1, str(isl))
    before(c, 'seed', 'island', L.sub, 'empty', 'add body')
    before(c, 'seed', 'island', L.sub, 'add body', 'island solve')
    if grow:
        growth(c, e, grow[0], b, ok, u)

    c.rule('static', 'after an island is solved its static bodies may join others')
    rest = [M for M in ins if M not in grow]
    c.ob('static', 'one pass over the members', len(rest) == 1, '%d' % len(rest))
    for M in rest[:1]:
        ix = [(S(m), S(m) < S(E.like(sym('members').at('len').n, E.ZERO))) for key, (i, m, n) in M.mus.items() if n is not None and E.isnum(m) and i == E.ZERO]
        okw = False
        for m, lv in ix:
            o = Obj(term(('proj', sym('members').n, ('i', m.n))))
            if any(x.kind == 'write' and E.showloc(*x.loc) == E.showloc(*locof(o.at('m_flags'))) for x in M.sub):
                okw = True
                uu = S(M.guard) & lv & ~deep_panics(M.sub)
                flag_changes(c, 'static', 'members', e, M.sub, [(o.at('m_flags'), {ISLAND: (o.at('m_type').is_(0, 3), S(FALSE))})], uu)
                c.ob('static', 'the pass visits every member', E.AND(M.e.info['back_pc'], uu.n) == uu.n, 'stops early')
        c.ob('static', 'members are visited', okw, '')
        g1, g2 = E.AND(M.guard, u.n), E.AND(ok.n, u.n)
        c.ob('static', 'after every island', g1 == g2, E.show(g1, 3))
        at = [i for i, x in enumerate(L.sub) if x is M.e]
        sol = [i for i, x in enumerate(L.sub) if x.kind == 'call' and x.name == 'island solve']
        c.ob('static', 'after solving', bool(at and sol) and max(sol) < at[0], '')

    c.rule('after', 'afterwards the fixtures of every non-static body that was in an island are synchronised, and then new pairs are found once')
    ss = [M for M in top if any(y.kind == 'call' and y.name == 'sync' for y in M.sub)]
    c.ob('after', 'one pass', len(ss) == 1, '%d' % len(ss))
    for M in ss[:1]:
        k = walk(c, 'after', 'synchronisation', M, bodies, ('m_next',), S(TRUE), S(TRUE))
        if k:
            o, lv = k
            cond = lv & o.flag(ISLAND, 'm_flags') & ~o.at('m_type').is_(0, 3)
            expect_calls(c, 'after', 'synchronisation', M.sub, 'sync', [((o.ptr(),), cond)], under=lv)
            flag_changes(c, 'after', 'synchronisation', e, M.sub, [], lv)
        c.ob('after', 'follows the islands', idx[id(M.e)] > idx[id(L.e)], '')
    expect_calls(c, 'after', 'pairs', r.effects, 'pairs', [((w.ptr('m_contact_manager'),), S(TRUE))])
    before(c, 'after', 'pairs', r.effects, 'sync', 'pairs')
    known = set(id(x.e) for x in list(mine.values()) + seeds + ss)
    extra = [L2 for L2 in top if id(L2.e) not in known]
    c.ob('after', 'no other pass', not extra, '%d' % len(extra))
    flag_changes(c, 'after', 'the world', e, r.effects, [], S(TRUE), ignore=('world.m_profile',))


def every(es):
    for x in es:
        yield x
        if x.kind == 'loop':
            yield from every(x.sub)


def deep_panics(es):
    n = FALSE
    for x in every(es):
        if x.kind == 'panic':
            n = E.OR(n, x.guard)
    return S(n)


def starts(L, head):
    for key, (i, s, n) in L.mus.items():
        if n is not None and E.constrain(i, L.guard) == E.constrain(node(head), L.guard):
            return s
    return None


def growth(c, e, M, seed, ok, u):
    c.rule('grow', 'an island grows from each non-static member through its enabled touching non-sensor contacts and through joints to enabled bodies, and wakes its members')
    g = E.AND(M.guard, u.n)
    c.ob('grow', 'runs for every seed', g == E.AND(ok.n, u.n), 'runs when ' + E.show(g, 3))
    stack = None
    for key, (i, s, n) in M.mus.items():
        p = payload(i) if is_term(i) else None
        if n is not None and p and p[0] == 'agg' and p[1] == 'vec' and len([1 for kk, _ in p[3] if kk != 'len']) == 1 and dict(p[3]).get(('i', E.ZERO)) == seed.ptr():
            stack = key, s, n
    if not c.ob('grow', 'starts with the seed alone', stack is not None, str([E.show(i, 3)[:80] for i, s, n in M.mus.values()])):
        return
    key, s, n = stack
    ln = S(E.like(Obj(s).at('len').n, E.ZERO))
    live = ln > S(E.ZERO)
    fine = ~deep_panics(M.sub)
    uu = S(M.guard) & live & fine
    c.ob('grow', 'continues until no member is pending', E.AND(M.e.info['back_pc'], E.AND(M.guard, fine.n)) == E.AND(live.n, E.AND(M.guard, fine.n)), E.show(M.e.info['back_pc'], 3)[:200])
    b = Obj(term(('proj', s, ('i', E.sub(ln.n, E.ONE)))))
    mobile = ~b.at('m_type').is_(0, 3)
    expect_calls(c, 'grow', 'member', M.sub, 'add body', [((None, b.ptr()), S(TRUE))], under=uu)
    flag_changes(c, 'grow', 'member', e, M.sub, [(b.at('m_flags'), {AWAKE: (mobile, S(TRUE))})], uu)
    own = S(E.AND(M.guard, live.n))
    bad = FALSE
    for x in M.sub:
        if x.kind == 'panic':
            bad = E.OR(bad, x.guard)
    c.ob('grow', 'only a disabled member is refused', fails_beyond(E.AND(bad, own.n), ~b.flag(ENABLED, 'm_flags')) == FALSE, E.show(bad, 4)[:200])
    c.ob('grow', 'sleep time is kept', not calls(M.sub, 'wake'), '')
    pushes(c, 'member', M.sub, [], uu)
    for lab, head, add in (('contact', b.at('m_contact_list', 'head'), 'add contact'), ('joint', b.at('m_joint_list', 'head'), 'add joint')):
        hits = [K for K in inner(M) if starts(K, head) is not None]
        c.ob('grow', lab + 's: one pass', len(hits) == 1, '%d' % len(hits))
        for K in hits[:1]:
            k = walk(c, 'grow', lab + 's', K, head, ('next',), mobile, S(E.AND(M.guard, E.AND(live.n, fine.n))))
            if not k:
                continue
            ed, lv = k
            x = ed.at(lab)
            o = ed.at('other')
            of = o.flag(ISLAND, 'm_flags')
            if lab == 'contact':
                base = x.at('base')
                cond = ~base.flag(C_ISLAND, 'm_flags') & base.flag(C_ENABLED, 'm_flags') & base.flag(C_TOUCH, 'm_flags') & ~base.bool('m_fixture_a', 'm_is_sensor') & ~base.bool('m_fixture_b', 'm_is_sensor')
                mark = (base.at('m_flags'), {C_ISLAND: (cond, S(TRUE))})
            else:
                base = x.at('base')
                cond = ~base.bool('m_island_flag') & o.flag(ENABLED, 'm_flags')
                mark = (base.at('m_island_flag'), ite(cond, S(TRUE), base.bool('m_island_flag')))
            uk = S(K.guard) & lv & ~deep_panics(K.sub)
            expect_calls(c, 'grow', lab + 's', K.sub, add, [((None, x.ptr()), cond)], under=uk)
            flag_changes(c, 'grow', lab + 's', e, K.sub, [mark, (o.at('m_flags'), {ISLAND: (cond & ~of, S(TRUE))})], uk)
            pushes(c, lab + 's', K.sub, [(o.ptr(), cond & ~of)], uk)
            c.ob('grow', lab + 's fail only for dead objects', fails_beyond(E.AND(deep_panics(K.sub).n, E.AND(K.guard, lv.n))) == FALSE, E.show(deep_panics(K.sub).n, 4)[:200])
            for other in ('add body', 'add contact', 'add joint'):
                if other != add:
                    c.ob('grow', lab + 's: no ' + other, not calls(K.sub, other), '')
    c.ob('grow', 'no other pass', len(inner(M)) == 2, '%d' % len(inner(M)))


def pushes(c, lab, es, want, u):
    got = [x for x in es if x.kind == 'push' and E.AND(x.guard, u.n) != FALSE]
    left = []
    tot = [FALSE] * len(want)
    for x in got:
        for i, (v, cond) in enumerate(want):
            if E.constrain(x.args[1], E.AND(x.guard, u.n)) == node(v):
                tot[i] = E.OR(tot[i], E.AND(x.guard, u.n))
                break
        else:
            left.append(x)
    for i, (v, cond) in enumerate(want):
        c.ob('grow', lab + ': the other body becomes pending', tot[i] == E.AND(cond.n, u.n), 'when ' + E.show(tot[i], 4)[:200])
    c.ob('grow', lab + ': nothing else becomes pending', not left, str([E.show(x.args[1], 3) for x in left]))


def add(c, P):
    c.rule('members', 'adding to an island appends and numbers bodies in order; emptying it removes all members')
    me = sym('self')
    for name, key in (('add_body', 'm_bodies'), ('add_contact', 'm_contacts'), ('add_joint', 'm_joints')):
        r = summarise(c, P, I + name, names=['self', 'x'])
        ps = [x for x in r.effects if x.kind == 'push']
        c.ob('members', name + ' appends once', len(ps) == 1 and ps[0].guard == TRUE and ps[0].args == [place(me, key), sym('x').ptr()], str([[E.show(a, 3) for a in x.args] for x in ps]))
        ws = [x for x in writes(r.effects) if outside(x) and not E.showloc(*x.loc).startswith('self.' + key)]
        if name == 'add_body':
            v = r.value(sym('x').ptr(), ('m_island_index',))
            c.ob('members', 'a body is numbered by its position', len(ws) == 1 and E.showloc(*ws[0].loc) == 'x.m_island_index' and same(v, E.like(me.at(key, 'len').n, E.ZERO)), str([str(x)[:80] for x in ws]))
        else:
            c.ob('members', name + ' changes nothing else', not ws, str([str(x)[:80] for x in ws]))
        no_panic(c, 'members', name, r)
    r = summarise(c, P, I + 'new', names=['nb', 'nc', 'nj', 'listener'])
    for k, v in (('m_positions', sym('nb').num().n), ('m_velocities', sym('nb').num().n), ('m_bodies', E.ZERO), ('m_contacts', E.ZERO), ('m_joints', E.ZERO)):
        g = r.value(r.ret, (k, 'len'))
        c.ob('members', 'a new island: number of ' + k[2:], same(g, v), E.show(g, 3))
    g = r.value(r.ret, ('m_listener',))
    c.ob('members', 'a new island: listener', g == sym('listener').n, E.show(g, 3))
    no_panic(c, 'members', 'new', r)
    r = summarise(c, P, I + 'clear', names=['self'])
    for key in ('m_bodies', 'm_contacts', 'm_joints'):
        v = r.value(me.ptr(), (key, 'len'))
        c.ob('members', 'emptying removes ' + key[2:], same(v, E.ZERO), E.show(v, 3))
