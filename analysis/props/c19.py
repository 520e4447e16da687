"""Continuous collision: finding the earliest impact, resolving it in its own small island, and repeating."""
from ..spec import *
from .worldlib import *
from .bodylib import AWAKE, BULLET
from .c03 import k_
from .c18 import every, deep_panics, starts

W = 'b2_world::B2world::<D>::'
I = 'private::dynamics::b2_island::B2island::<D>::'
ISLAND = 0
C_ISLAND, C_TOUCH, C_ENABLED, C_TOI = 0, 1, 2, 5


def after(name, f):
    """hook: note the call, then give the places it may change unknown new contents."""
    def h(e, fr, st, args, tys, dt, line, fop):
        v = record(name)(e, fr, st, args, tys, dt, line, fop)
        f(e, st, args)
        return v
    return h


def fresh(what, p): return sym('%s %s' % (what, E.show(p, 99)))


def updated(e, st, a): e.store(st, e.extend(e.extend(a[0], 'base'), 'm_flags'), fresh('updated', a[0]).n)
def moved(e, st, a): e.store(st, e.extend(a[0], 'm_sweep'), fresh('moved', a[0]).n)
def swept(e, st, a): e.store(st, a[0], fresh('swept', a[0]).n)


def impact(e, st, a):
    e.store(st, e.extend(a[0], 't'), sym('impact').num('t').n)
    e.store(st, e.extend(a[0], 'state'), sym('impact').at('state').n)


def added(e, st, a):
    p = e.extend(e.extend(a[0], 'm_bodies'), 'len')
    e.store(st, p, E.add(e.coerce_num(e.load(st, p)), E.ONE))
    e.store(st, e.extend(a[1], 'm_island_index'), fresh('slot of', a[1]).num().n)


def emptied(e, st, a): e.store(st, e.extend(e.extend(a[0], 'm_bodies'), 'len'), E.ZERO)
def solved(e, st, a): e.store(st, e.extend(a[0], 'm_bodies'), sym('members').n)


HOOKS = {MGR + 'find_new_contacts': record('pairs'), I + 'add_body': after('add body', added), I + 'add_contact': record('add contact'), I + 'add_joint': record('add joint'),
         I + 'clear': after('empty', emptied), I + 'solve_toi': after('island solve', solved), I + 'solve': record('other solve'), I + 'new': record('make', lambda e, a, n: sym('island').n),
         BDM + 'synchronize_fixtures_by_world': record('sync'), BDM + 'synchronize_fixtures': record('sync'), BDM + 'advance': after('advance', moved),
         BDM + 'synchronize_transform': record('place'), BDM + 'set_awake': record('wake'),
         'b2_contact::B2contact::<D>::update': after('update', updated), 'b2_time_of_impact::b2_time_of_impact': after('impact', impact),
         'b2_distance::B2distanceProxy::set_shape': record('shape'), 'b2_math::B2Sweep::advance': after('sweep', swept)}


def check(c):
    P = c.P
    w, step = sym('world'), sym('step')
    r = summarise(c, P, W + 'solve_toi', names=['world', 'step'], hooks=HOOKS, unroll=2)
    e = r.eng
    bodies, contacts = w.at('m_body_list', 'head'), w.at('m_contact_manager', 'm_contact_list', 'head')
    lst = w.at('m_contact_manager', 'm_contact_listener').n
    done = w.bool('m_step_complete')
    top = loops(r)

    c.rule('reset', 'after a complete step all bodies are at the start of the interval and no impact is known; an unfinished step carries on')
    mine = {}
    for lab, head, link in (('bodies', bodies, ('m_next',)), ('contacts', contacts, ('base', 'm_next'))):
        hits = [L for L in top if starts(L, head) is not None and not inner(L)]
        c.ob('reset', lab + ': one pass', len(hits) == 1, '%d passes' % len(hits))
        for L in hits[:1]:
            mine[lab] = L
            k = walk(c, 'reset', lab, L, head, link, done, S(TRUE))
            if k:
                o, live = k
                if lab == 'bodies':
                    want = [(o.at('m_flags'), {ISLAND: (S(TRUE), S(FALSE))}), (o.at('m_sweep', 'alpha0'), k_(0))]
                else:
                    want = [(o.at('base', 'm_flags'), {C_ISLAND: (S(TRUE), S(FALSE)), C_TOI: (S(TRUE), S(FALSE))}), (o.at('base', 'm_toi_count'), k_(0)), (o.at('base', 'm_toi'), k_(1))]
                flag_changes(c, 'reset', lab, e, L.sub, want, live & S(L.guard))
    evs = [L for L in top if inner(L)]
    c.rule('earliest', 'the next impact is the earliest among enabled, solid contacts that may still be sub-stepped, computed on a common interval and remembered')
    if not c.ob('earliest', 'impacts are handled one by one', len(evs) == 1, '%d loops' % len(evs)):
        return
    L = evs[0]
    idx = {id(x): i for i, x in enumerate(r.effects)}
    for lab, M in mine.items():
        c.ob('reset', lab + ' are reset first', idx[id(M.e)] < idx[id(L.e)], '')
    c.ob('earliest', 'always looked for', L.guard == TRUE, E.show(L.guard, 3))
    ins = inner(L)
    find = [M for M in ins if starts(M, contacts) is not None]
    if not c.ob('earliest', 'one search per impact', len(find) == 1, '%d' % len(find)):
        return
    M = find[0]
    best = search(c, r, e, M, contacts)
    if best is None:
        return
    minc, mina = best

    c.rule('stop', 'impacts are handled until none lies within the step; with sub-stepping one at a time')
    found = ~isnone(minc) & ~(k_(1) - k_(10) * f32(1.1920929e-07) < mina)
    handled = S(TRUE)
    ev = Obj(minc.n).at(*SOME)
    go = S(E.AND(OR_exits(M), found.n))

    c.rule('impact', 'both bodies advance to the impact, the contact is refreshed, and without a solid touch they go back and the contact is left out')
    base = ev.at('base')
    A, B = base.at('m_fixture_a', 'm_body', *SOME), base.at('m_fixture_b', 'm_body', *SOME)
    own = [x for x in L.sub if x.kind != 'loop']
    fine = ~deep_panics([x for x in L.sub])
    u = go & fine
    up = fresh('updated', ev.ptr())
    ok = up.flag(C_ENABLED) & up.flag(C_TOUCH)
    back, solid = u & ~ok, u & ok
    expect_calls(c, 'impact', 'bodies', own, 'advance', [((A.ptr(), mina.n), S(TRUE)), ((B.ptr(), mina.n), S(TRUE))], under=u)
    expect_calls(c, 'impact', 'contact', own, 'update', [((ev.ptr(), lst), S(TRUE))], under=u)
    before(c, 'impact', 'impact', own, 'advance', 'update')
    expect_calls(c, 'impact', 'going back', own, 'place', [((A.ptr(),), ~ok), ((B.ptr(),), ~ok)], under=u)
    fl, cnt = base.at('m_flags'), base.at('m_toi_count')
    bits(c, 'impact', 'contact', e, L, own, base.at('m_flags'), up, {C_TOI: S(FALSE), C_ENABLED: up.flag(C_ENABLED) & ok, C_ISLAND: up.flag(C_ISLAND) | ok}, u)
    was = entry(L, cnt)
    was = S(was.n if E.isnum(was.n) else was.num().n)
    last_value(c, 'impact', 'sub-step count', own, cnt, was, was + k_(1), u)
    for X, n in ((A, 'first'), (B, 'second')):
        sw = X.at('m_sweep')
        old = entry(L, sw)
        mv = fresh('moved', X.ptr())
        last_value(c, 'impact', n + ' body\'s motion', own, sw, None, None, u, want=E.ite(back.n, old.n, mv.n), init=mv.n)
        fl0 = Flags(e, entry(L, X.at('m_flags')).n)
        bits(c, 'impact', n + ' body', e, L, own, X.at('m_flags'), fl0, {ISLAND: fl0.flag(ISLAND) | ok}, u)
    placed(c, 'impact', r, own, [(A, entry(L, A.at('m_sweep'))), (B, entry(L, B.at('m_sweep')))], u)
    known = [E.showloc(*locof(o)) for o in (base.at('m_flags'), cnt, A.at('m_sweep'), B.at('m_sweep'), A.at('m_flags'), B.at('m_flags'), A.at('m_island_index'), B.at('m_island_index'))]
    extra = [x for x in own if x.kind == 'write' and outside(x) and E.AND(x.guard, u.n) != FALSE and E.showloc(*x.loc) not in known and not E.showloc(*x.loc).startswith('island')]
    c.ob('impact', 'nothing else changes', not extra, str([str(x)[:160] for x in extra]))

    c.rule('island', 'a solid impact is resolved together with the touching static, kinematic and bullet neighbours of its two bodies')
    expect_calls(c, 'island', 'waking', own, 'wake', [((A.ptr(), TRUE), ok), ((B.ptr(), TRUE), ok)], under=u)
    expect_calls(c, 'island', 'island', own, 'empty', [((None,), ok)], under=u)
    expect_calls(c, 'island', 'island', own, 'add body', [((None, A.ptr()), ok), ((None, B.ptr()), ok)], under=u)
    expect_calls(c, 'island', 'island', own, 'add contact', [((None, ev.ptr()), ok)], under=u)
    expect_calls(c, 'island', 'island', r.effects, 'make', [((None, None, None, lst), S(TRUE))])
    for x in calls(r.effects, 'make'):
        c.ob('island', 'room for 64 bodies', (S(x.args[0]) >= k_(64)).n == TRUE, E.show(x.args[0], 3))
    room = min([int(E.show(x.args[0], 2)) for x in calls(r.effects, 'make') if E.show(x.args[0], 2).isdigit()] or [0])
    for a in ('add body', 'add contact'):
        before(c, 'island', 'island', own, 'empty', a)
        before(c, 'island', 'island', L.sub, a, 'island solve')
    g = solid
    near = [N for N in ins if N is not M and any(y.kind == 'call' and y.name == 'update' for y in every(N.sub))]
    c.ob('island', 'both bodies\' neighbours are gathered', len(near) == 2, '%d passes' % len(near))
    rest = [N for N in ins if N is not M and N not in near]
    if len(near) == 2:
        for X, n, N in ((A, 'first', near[0]), (B, 'second', near[1])):
            g = gather(c, r, e, N, X, n, g, mina, lst, room, Flags(e, entry(L, X.at('m_flags')).n))
            if g is None:
                return

    c.rule('substep', 'the rest of the step is solved for the small island with its own time step')
    expect_calls(c, 'substep', 'solve', own, 'island solve', [((None, None, fresh('slot of', A.ptr()).num().n, fresh('slot of', B.ptr()).num().n), g)], under=fine & S(OR_exits(M)))
    dt = (k_(1) - mina) * step.num('dt')
    for x in calls(own, 'island solve'):
        for f, v in (('dt', dt), ('inv_dt', k_(1) / dt), ('dt_ratio', k_(1)), ('position_iterations', k_(20)), ('velocity_iterations', step.num('velocity_iterations')), ('warm_starting', S(FALSE))):
            got = r.value(x.args[1], (f,), mem=x.mem)
            c.ob('substep', 'sub-step ' + f, same(got, v.n), E.show(got, 4)[:150])
    isl = {E.show(x.args[0], 3) for x in every(r.effects) if x.kind == 'call' and x.name in ('empty', 'add body', 'add contact', 'island solve')}
    c.ob('substep', 'one island throughout', len(isl) == 1, str(isl))

    c.rule('release', 'afterwards members leave the island, moved bodies\' fixtures follow, their known impacts are forgotten, and new pairs are found')
    c.ob('release', 'one pass over the members', len(rest) == 1, '%d' % len(rest))
    for N in rest[:1]:
        release(c, e, N, g & fine, w)
        at = [i for i, x in enumerate(L.sub) if x is N.e][0]
        sol = [i for i, x in enumerate(L.sub) if x.kind == 'call' and x.name == 'island solve']
        prs = [i for i, x in enumerate(L.sub) if x.kind == 'call' and x.name == 'pairs']
        c.ob('release', 'after solving and before new pairs are found', bool(sol and prs) and max(sol) < at < min(prs), '')
        g2 = g & S(OR_exits(N))
        fine = fine & S(OR_exits(M)) & S(E.OR(OR_exits(N), E.NOT(N.guard)))
        expect_calls(c, 'release', 'pairs', own, 'pairs', [((w.ptr('m_contact_manager'),), g2)], under=fine)
        sub = w.bool('m_sub_stepping')
        again = (u & ~ok) | (g2 & ~sub)
        bp = E.AND(L.e.info['back_pc'], fine.n)
        c.ob('stop', 'the next impact is sought unless sub-stepping', bp == E.AND(again.n, fine.n), E.show(bp, 4)[:200])
        none = S(E.AND(OR_exits(M), (~found).n))
        ws = [x for x in r.effects if x.kind == 'write' and outside(x)]
        for x in ws:
            c.ob('stop', 'only the completion mark changes', E.showloc(*x.loc) == 'world.m_step_complete', str(x)[:200])
        hit = FALSE
        val = done.n
        for x in ws:
            if E.showloc(*x.loc) == 'world.m_step_complete':
                hit = E.OR(hit, x.guard)
                val = E.ite(x.guard, x.value, val)
        hv = E.AND(hit, fine.n)
        wv = E.AND((none | (g2 & sub)).n, fine.n)
        c.ob('stop', 'the completion mark is set when finished', hv == wv, 'when ' + E.show(hv, 4)[:200])
        c.ob('stop', 'complete without impacts, incomplete with sub-stepping', E.constrain(val, E.AND(none.n, fine.n)) == TRUE and E.constrain(val, E.AND((g2 & sub).n, fine.n)) == FALSE, E.show(val, 4)[:200])


def OR_exits(L):
    out = FALSE
    for x in L.exits:
        out = E.OR(out, x)
    return out


def entry(L, o):
    """contents of a place at the start of the loop's iteration."""
    return entry_of(L, E.showloc(*locof(o))) or o


def bits(c, rule, lab, e, L, es, loc, before_, want, u):
    """flags left at the end, starting from before_."""
    name = E.showloc(*locof(loc))
    for b in range(8):
        cur = before_.flag(b).n
        for x in es:
            if x.kind == 'write' and E.showloc(*x.loc) == name and E.AND(x.guard, u.n) != FALSE:
                cur = E.ite(x.guard, e.flagbit(x.value, b), cur)
        wv = want.get(b, before_.flag(b)).n
        c.ob(rule, '%s: flag %d' % (lab, b), E.constrain(cur, u.n) == E.constrain(wv, u.n), 'becomes ' + E.show(E.constrain(cur, u.n), 4)[:200])


def last_value(c, rule, lab, es, loc, before_, val, u, want=None, init=None):
    name = E.showloc(*locof(loc))
    cur = init if init is not None else before_.n
    for x in es:
        if x.kind == 'write' and E.showloc(*x.loc) == name and E.AND(x.guard, u.n) != FALSE:
            cur = E.ite(x.guard, x.value, cur)
    wv = want if want is not None else val.n
    c.ob(rule, lab, E.constrain(cur, u.n) == E.constrain(wv, u.n), 'becomes ' + E.show(E.constrain(cur, u.n), 4)[:200])


def placed(c, rule, r, es, want, u):
    for x in calls(es, 'place'):
        for X, sw in want:
            if x.args[0] == X.ptr():
                v = E.constrain(r.value(x.args[0], ('m_sweep',), mem=x.mem), E.AND(x.guard, u.n))
                c.ob(rule, 'going back places the body where it was', v == sw.n, E.show(v, 4)[:200])


def search(c, r, e, M, contacts):
    k = walk(c, 'earliest', 'contacts', M, contacts, ('base', 'm_next'), S(TRUE), S(TRUE))
    if not k:
        return None
    o, live = k
    base = o.at('base')
    fa, fb = base.at('m_fixture_a'), base.at('m_fixture_b')
    A, B = fa.at('m_body', *SOME), fb.at('m_body', *SOME)
    dyn = lambda X: X.at('m_type').is_(2, 3)
    active = lambda X: X.flag(AWAKE, 'm_flags') & ~X.at('m_type').is_(0, 3)
    fast = lambda X: X.flag(BULLET, 'm_flags') | ~dyn(X)
    elig = base.flag(C_ENABLED, 'm_flags') & ~(base.num('m_toi_count') > k_(8))
    cached = base.flag(C_TOI, 'm_flags')
    solid = ~fa.bool('m_is_sensor') & ~fb.bool('m_is_sensor')
    comp = elig & ~cached & solid & (active(A) | active(B)) & (fast(A) | fast(B))
    a0, b0 = A.num('m_sweep', 'alpha0'), B.num('m_sweep', 'alpha0')
    alpha0 = smax(a0, b0)
    fine = ~deep_panics(M.sub)
    u = live & fine
    bad = deep_panics(M.sub) & live
    allowed = (elig & ~cached & solid) & (isnone(fa.at('m_body')) | isnone(fb.at('m_body')) | (~dyn(A) & ~dyn(B)) | ~(alpha0 < k_(1)) | isnone(fa.at('m_shape')) | isnone(fb.at('m_shape')))
    c.ob('earliest', 'fails only for impossible pairs', fails_beyond(bad, allowed) == FALSE, E.show(fails_beyond(bad, allowed), 4)[:300])
    sa, sb = A.ptr('m_sweep'), B.ptr('m_sweep')
    expect_calls(c, 'earliest', 'common interval', M.sub, 'sweep', [((place(A, 'm_sweep'), b0.n), comp & (a0 < b0)), ((place(B, 'm_sweep'), a0.n), comp & (b0 < a0))], under=u)
    before(c, 'earliest', 'contact', M.sub, 'sweep', 'impact')
    before(c, 'earliest', 'contact', M.sub, 'shape', 'impact')
    expect_calls(c, 'earliest', 'contact', M.sub, 'impact', [((None, None), comp)], under=u)
    for x in calls(M.sub, 'impact'):
        g = E.AND(x.guard, u.n)
        pa, pb = e.extend(x.args[1], 'proxy_a'), e.extend(x.args[1], 'proxy_b')
        expect_calls(c, 'earliest', 'shapes', M.sub, 'shape', [((pa, fa.ptr('m_shape', *SOME), base.num('m_index_a').n), comp), ((pb, fb.ptr('m_shape', *SOME), base.num('m_index_b').n), comp)], under=u)
        v = r.value(x.args[1], ('t_max',), mem=x.mem)
        c.ob('earliest', 'searched over the whole interval', same(v, E.ONE), E.show(v, 3))
        for X, f, cond in ((A, 'sweep_a', a0 < b0), (B, 'sweep_b', b0 < a0)):
            ws = fresh('swept', place(X, 'm_sweep'))
            for ks in (('c0', 'x'), ('c0', 'y'), ('c', 'x'), ('c', 'y'), ('a0',), ('a',), ('alpha0',), ('local_center', 'x'), ('local_center', 'y')):
                got = E.constrain(r.value(x.args[1], (f,) + ks, mem=x.mem, like=E.ZERO), g)
                want = E.constrain(ite(cond, ws.num(*ks), X.num('m_sweep', *ks)).n, g)
                c.ob('earliest', '%s gives its %s' % (f, '.'.join(ks)), same(got, want), E.show(got, 3)[:150])
    # 3 = touching
    st = sym('impact').at('state')
    hit = S(term_is(st, 3))
    t = sym('impact').num('t')
    alpha = ite(cached, base.num('m_toi'), ite(hit, smin(alpha0 + (k_(1) - alpha0) * t, k_(1)), k_(1)))
    flag_changes(c, 'earliest', 'contacts', e, [x for x in M.sub if not (x.kind == 'write' and E.showloc(*x.loc) in (E.showloc(*locof(A.at('m_sweep'))), E.showloc(*locof(B.at('m_sweep')))) and 'swept' in E.show(x.value, 3))],
                 [(base.at('m_flags'), {C_TOI: (comp, S(TRUE))}), (base.at('m_toi'), ite(comp, alpha, base.num('m_toi')))], u)
    cons = elig & (cached | comp)
    minc = mina = None
    back = E.AND(M.e.info['back_pc'], u.n)
    for key, (i, s, n) in M.mus.items():
        if n is None or s == o.n:
            continue
        if E.isnum(s) and i == E.ONE:
            mina = S(s), n
        elif is_term(i) and E.show(i, 2).startswith('Option::None'):
            minc = Obj(s), n
    if not c.ob('earliest', 'the earliest impact starts out as none', minc is not None and mina is not None, str([E.show(i, 2) for i, s, n in M.mus.values()])):
        return None
    better = cons & (alpha < mina[0])
    got, want = E.constrain(mina[1], back), E.constrain(ite(better, alpha, mina[0]).n, back)
    c.ob('earliest', 'the earliest time is kept', same(got, want), show_difference(got, want, 4)[:300])
    n = minc[1]
    gb = E.AND(back, better.n)
    nv = r.value(n, ('d', 'Some', '0')) if False else E.constrain(n, gb)
    c.ob('earliest', 'with its contact', is_term(nv) and ('Some' in E.show(nv, 3)) and E.show(o.ptr(), 4) in E.show(nv, 5), E.show(nv, 4)[:200])
    kv = E.constrain(n, E.AND(back, (~better).n))
    c.ob('earliest', 'otherwise the one so far stays', kv == E.constrain(minc[0].n, E.AND(back, (~better).n)), E.show(kv, 4)[:200])
    return minc[0], mina[0]


def term_is(o, variant):
    return o.is_(variant, 5).n


def gather(c, r, e, N, X, n, g, mina, lst, room, fl):
    lab = n + ' body\'s neighbours'
    head = X.at('m_contact_list', 'head')
    dyn = X.at('m_type').is_(2, 3)
    fine = ~deep_panics(N.sub)
    got = E.AND(N.guard, g.n)
    c.ob('island', lab + ' are gathered exactly if it is dynamic', got == E.AND(g.n, dyn.n), 'when ' + E.show(got, 3)[:200])
    sc = scan(c, 'island', lab, N, head, ('next',))
    if sc is None:
        return None
    ed, live = sc
    ln = [S(s) for key, (i, s, nx) in N.mus.items() if E.showloc(*key).endswith('m_bodies.len') and nx is not None]
    full = S(FALSE)
    if ln:
        full = ln[0].eq(k_(room))
    u = S(N.guard) & live & fine & ~full
    x, o = ed.at('contact'), ed.at('other')
    base = x.at('base')
    of = o.flag(ISLAND, 'm_flags')
    cand = ~base.flag(C_ISLAND, 'm_flags') & ~(o.at('m_type').is_(2, 3) & ~fl.flag(BULLET) & ~o.flag(BULLET, 'm_flags')) & ~base.bool('m_fixture_a', 'm_is_sensor') & ~base.bool('m_fixture_b', 'm_is_sensor')
    up = fresh('updated', x.ptr())
    ok = up.flag(C_ENABLED) & up.flag(C_TOUCH)
    take = cand & ok
    expect_calls(c, 'island', lab, N.sub, 'advance', [((o.ptr(), mina.n), cand & ~of)], under=u)
    expect_calls(c, 'island', lab, N.sub, 'update', [((x.ptr(), lst), cand)], under=u)
    before(c, 'island', lab, N.sub, 'advance', 'update')
    expect_calls(c, 'island', lab, N.sub, 'place', [((o.ptr(),), cand & ~ok)], under=u)
    expect_calls(c, 'island', lab, N.sub, 'add contact', [((None, x.ptr()), take)], under=u)
    expect_calls(c, 'island', lab, N.sub, 'add body', [((None, o.ptr()), take & ~of)], under=u)
    expect_calls(c, 'island', lab, N.sub, 'wake', [((o.ptr(), TRUE), take & ~of & ~o.at('m_type').is_(0, 3))], under=u)
    mv = fresh('moved', o.ptr())
    own = o.at('m_sweep')
    last_value(c, 'island', lab + ': motion', N.sub, own, None, None, u & cand, want=E.ite(ok.n, E.ite(of.n, own.n, mv.n), own.n), init=E.ite((cand & ~of).n, mv.n, own.n))
    bits(c, 'island', lab + ': contact', e, N, N.sub, base.at('m_flags'), Sel(cand, up, base.at('m_flags')), {C_ISLAND: ite(cand, up.flag(C_ISLAND) | ok, base.flag(C_ISLAND, 'm_flags'))}, u)
    bits(c, 'island', lab + ': body', e, N, N.sub, o.at('m_flags'), o.at('m_flags'), {ISLAND: of | take}, u)
    placed(c, 'island', r, N.sub, [(o, own)], u)
    known = [E.showloc(*locof(q)) for q in (base.at('m_flags'), own, o.at('m_flags'), o.at('m_island_index'))]
    extra = [y for y in N.sub if y.kind == 'write' and outside(y) and E.AND(y.guard, u.n) != FALSE and E.showloc(*y.loc) not in known and not E.showloc(*y.loc).startswith('island')]
    c.ob('island', lab + ': nothing else changes', not extra, str([str(y)[:160] for y in extra]))
    # the pass ends early only when the island is full, and never takes more than there is room for
    f2 = E.AND(N.guard, E.AND(fine.n, live.n))
    early = FALSE
    for y in N.exits:
        early = E.OR(early, E.AND(y, f2))
    c.ob('island', lab + ': stops early exactly when the island is full', ln and early == E.AND(full.n, f2), 'stops when ' + E.show(early, 4)[:200])
    c.ob('island', lab + ' fail only for dead objects', fails_beyond(E.AND(deep_panics(N.sub).n, E.AND(N.guard, live.n)), isnone(base.at('m_fixture_a', 'm_body'))) == FALSE, E.show(deep_panics(N.sub).n, 4)[:200])
    return S(E.AND(g.n, E.OR((~dyn).n, OR_exits(N))))


class Flags:
    def __init__(self, e, n): self.e, self.n = e, n
    def flag(self, b): return S(self.e.flagbit(self.n, b))


class Sel:
    """one of two flag sets."""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def flag(self, b): return ite(self.c, self.a.flag(b), self.b.flag(b))


def release(c, e, N, g, w):
    got = E.AND(N.guard, g.n)
    c.ob('release', 'after every impact', got == g.n, 'when ' + E.show(got, 3)[:200])
    okw = False
    for key, (i, m, n) in N.mus.items():
        if n is None or not E.isnum(m) or i != E.ZERO:
            continue
        m = S(m)
        lv = m < S(E.like(sym('members').at('len').n, E.ZERO))
        o = Obj(term(('proj', sym('members').n, ('i', m.n))))
        if not any(x.kind == 'write' and E.showloc(*x.loc) == E.showloc(*locof(o.at('m_flags'))) for x in N.sub):
            continue
        okw = True
        fine = ~deep_panics(N.sub)
        uu = S(N.guard) & lv & fine
        dyn = o.at('m_type').is_(2, 3)
        flag_changes(c, 'release', 'members', e, N.sub, [(o.at('m_flags'), {ISLAND: (S(TRUE), S(FALSE))})], uu)
        expect_calls(c, 'release', 'members', N.sub, 'sync', [((o.ptr(), w.ptr()), dyn)], under=uu)
        c.ob('release', 'the pass visits every member', all(E.AND(x, uu.n) == FALSE for x in N.exits), 'stops early')
        ks = inner(N)
        c.ob('release', 'one pass over each member\'s contacts', len(ks) == 1, '%d' % len(ks))
        for K in ks[:1]:
            kk = walk(c, 'release', 'contacts of a member', K, o.at('m_contact_list', 'head'), ('next',), dyn, uu)
            if kk:
                ed, l2 = kk
                fl = ed.at('contact', 'base', 'm_flags')
                flag_changes(c, 'release', 'contacts of a member', e, K.sub, [(fl, {C_ISLAND: (S(TRUE), S(FALSE)), C_TOI: (S(TRUE), S(FALSE))})], S(K.guard) & l2 & ~deep_panics(K.sub))
    c.ob('release', 'members are visited', okw, '')
