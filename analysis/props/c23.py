"""Island solving: integration, constraint phases, write-back, reporting, sleeping."""
from ..spec import *
from .worldlib import *
from .bodylib import AUTOSLEEP
from .c03 import k_
from .c18 import every, deep_panics

I = 'private::dynamics::b2_island::B2island::<D>::'
CS = 'private::dynamics::b2_contact_solver::B2contactSolver::'
JT = 'b2_joint::B2jointTraitDyn::'
PI = 3.14159274101257324
MAXT, MAXR2, MAXR = k_(2), f32(2.4674012660980225), f32(1.57079637050628662)
LIN2, ANG2, TSLEEP = None, None, f32(0.5)
ME = sym('self')
NB = lambda: S(E.like(ME.at('m_bodies', 'len').n, E.ZERO))
NJ = lambda: S(E.like(ME.at('m_joints', 'len').n, E.ZERO))


def hooks():
    h = {CS + n: record(n) for n in ('initialize_velocity_constraints', 'warm_start', 'solve_velocity_constraints', 'store_impulses')}
    h[CS + 'new'] = record('new', lambda e, a, n: sym('solver').n)
    h[CS + 'solve_position_constraints'] = record('solve_position_constraints', lambda e, a, n: sym('contacts_ok').bool().n)
    h[CS + 'solve_toiposition_constraints'] = record('solve_toiposition_constraints', lambda e, a, n: sym('contacts_ok').bool().n)
    for n in ('init_velocity_constraints', 'solve_velocity_constraints'):
        h[JT + n] = record('joint ' + n)
    h[JT + 'solve_position_constraints'] = record('joint solve_position_constraints', lambda e, a, n: sym('joint_ok').bool().n)
    h[I + 'report'] = record('report')
    h[BDM + 'set_awake'] = record('wake')
    h[BDM + 'synchronize_transform'] = record('sync')
    return h


def has(x, name):
    return any(y.kind == 'call' and y.name == name for y in every([x]))


def touches(x, name):
    return x.kind == 'loop' and any(y.kind == 'write' and name in E.showloc(*y.loc) for y in every([x]))


def check(c):
    P = c.P
    solve(c, P)
    toi(c, P)
    report(c, P)


def one(c, rule, lab, es, pred):
    got = [(i, x) for i, x in enumerate(es) if pred(x)]
    c.ob(rule, lab + ': happens once', len(got) == 1, '%d times' % len(got))
    return got[0] if len(got) == 1 else (None, None)


def step_fields(c, rule, lab, r, ptr, mem, pre=('step',), src='step'):
    for f in ('dt', 'inv_dt', 'dt_ratio', 'velocity_iterations', 'position_iterations'):
        v = r.value(ptr, pre + (f,), mem=mem)
        c.ob(rule, '%s uses the step\'s %s' % (lab, f), same(v, sym(src).num(f).n), E.show(v, 3)[:100])
    v = r.value(ptr, pre + ('warm_starting',), mem=mem)
    c.ob(rule, lab + ' uses the step\'s warm starting', same(v, sym(src).bool('warm_starting').n), E.show(v, 3)[:100])


def over(c, rule, lab, L, n, guard):
    """index of a complete pass 0..n happening under guard."""
    c.ob(rule, lab + ': happens when it should', L.guard == nd(guard), 'when ' + E.show(L.guard, 3)[:200])
    k = counted(c, rule, lab, L, n)
    return k


def limit(h, v, w):
    """large velocities are limited to the greatest movement per step."""
    t = h * v
    ratio = MAXT / sqrt(dot(t, t))
    v2 = both(dot(t, t) > MAXT * MAXT, v * ratio, v)
    rot = h * w
    w2 = ite(rot * rot > MAXR2, w * (MAXR / abs_(rot)), w)
    return v2, w2


def both(cnd, a, b): return V(ite(cnd, a.x, b.x), ite(cnd, a.y, b.y))
def abs_(x): return ite(x > k_(0), x, -x)


def vecs(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, V):
            out[k + ('x',)], out[k + ('y',)] = v.x, v.y
        else:
            out[k] = v
    return out


def bodies(i): return ME.at('m_bodies', ('i', i.n))
def pos(i): return ME.at('m_positions', ('i', i.n))
def vel(i): return ME.at('m_velocities', ('i', i.n))


def solve(c, P):
    r = summarise(c, P, I + 'solve', names=['self', 'profile', 'step', 'gravity', 'sleep'], hooks=hooks())
    es = r.effects
    h = sym('step').num('dt')
    POS, VEL, CON = place(ME, 'm_positions'), place(ME, 'm_velocities'), place(ME, 'm_contacts')
    c.rule('forces', 'a dynamic body\'s velocity changes by gravity, force, torque and damping; other bodies keep theirs; the pose at the start of the step is remembered')
    c.ob('forces', 'never fails', panics(r).n == FALSE, E.show(panics(r).n, 3))
    top = [x for x in es if x.kind in ('loop',) or (x.kind == 'call' and x.info.get('rec'))]
    stage = []
    i0, x = one(c, 'forces', 'integration of forces', top, lambda x: touches(x, 'm_sweep.c0'))
    stage.append(i0)
    if x is not None:
        L = Loop(x)
        k = over(c, 'forces', 'bodies', L, NB(), S(TRUE))
        if k:
            i, live = k
            b = bodies(i)
            dyn = b.at('m_type').is_(2, 3)
            v, w = b.vec('m_linear_velocity'), b.num('m_angular_velocity')
            g = sym('gravity').vec()
            v2 = (v + (h * b.num('m_inv_mass')) * (g * (b.num('m_gravity_scale') * b.num('m_mass')) + b.vec('m_force'))) * (k_(1) / (k_(1) + h * b.num('m_linear_damping')))
            w2 = (w + h * b.num('m_inv_i') * b.num('m_torque')) * (k_(1) / (k_(1) + h * b.num('m_angular_damping')))
            row_writes(c, 'forces', 'bodies', r, L.sub, live, [
                (b, b, vecs({('m_sweep', 'c0'): b.vec('m_sweep', 'c'), ('m_sweep', 'a0'): b.num('m_sweep', 'a')})),
                (pos(i), entry_of(L, 'self.m_positions').at(('i', i.n)), vecs({('c',): b.vec('m_sweep', 'c'), ('a',): b.num('m_sweep', 'a')})),
                (vel(i), entry_of(L, 'self.m_velocities').at(('i', i.n)), vecs({('v',): both(dyn, v2, v), ('w',): ite(dyn, w2, w)}))])

    c.rule('phases', 'constraints are initialised, warm started when asked, iterated the given number of times and their impulses kept, in the fixed order')
    n1, x = one(c, 'phases', 'contact solver', top, lambda x: x.kind == 'call' and x.name == 'new')
    stage.append(n1)
    if x is not None:
        expect_calls(c, 'phases', 'contact solver', es, 'new', [((None, CON), S(TRUE))])
        step_fields(c, 'phases', 'contact solver', r, x.args[0], x.mem)
    n, x = one(c, 'phases', 'contact initialisation', top, lambda x: x.kind == 'call' and x.name == 'initialize_velocity_constraints')
    stage.append(n)
    expect_calls(c, 'phases', 'contacts', es, 'initialize_velocity_constraints', [((None, POS, VEL, CON), S(TRUE))])
    n, x = one(c, 'phases', 'warm starting', top, lambda x: x.kind == 'call' and x.name == 'warm_start')
    stage.append(n)
    expect_calls(c, 'phases', 'contacts', es, 'warm_start', [((None, VEL), sym('step').bool('warm_starting'))])
    n, x = one(c, 'phases', 'joint initialisation', top, lambda x: has(x, 'joint init_velocity_constraints'))
    stage.append(n)
    if x is not None and c.ob('phases', 'joint initialisation is a pass', x.kind == 'loop', ''):
        joint_pass(c, r, Loop(x), 'joint init_velocity_constraints', S(TRUE), (POS, VEL))
    n, x = one(c, 'phases', 'velocity iterations', top, lambda x: has(x, 'solve_velocity_constraints'))
    stage.append(n)
    if x is not None and c.ob('phases', 'velocity constraints are iterated', x.kind == 'loop', ''):
        L = Loop(x)
        k = over(c, 'phases', 'velocity iterations', L, sym('step').num('velocity_iterations'), S(TRUE))
        if k:
            i, live = k
            js = [M for M in inner(L)]
            c.ob('phases', 'joints are solved in each iteration', len(js) == 1, '%d passes' % len(js))
            for M in js[:1]:
                joint_pass(c, r, M, 'joint solve_velocity_constraints', live, (VEL,))
            expect_calls(c, 'phases', 'velocity iterations', L.sub, 'solve_velocity_constraints', [((None, VEL), S(TRUE))], under=live)
            before(c, 'phases', 'velocity iterations', L.sub, 'joint solve_velocity_constraints', 'solve_velocity_constraints')
            row_writes(c, 'phases', 'velocity iterations', r, list(every(L.sub)), live, [])
    n, x = one(c, 'phases', 'storing impulses', top, lambda x: has(x, 'store_impulses'))
    stage.append(n)
    expect_calls(c, 'phases', 'contacts', es, 'store_impulses', [((None, CON), S(TRUE))])

    c.rule('move', 'bodies move by velocity times step, limited to the greatest translation and rotation')
    n, x = one(c, 'move', 'integration of positions', top, lambda x: touches(x, 'm_positions') and not touches(x, 'm_sweep'))
    stage.append(n)
    if x is not None:
        move(c, r, Loop(x), h, S(TRUE), False)

    c.rule('positions', 'position errors are corrected until contacts and all joints agree or the iterations are used up')
    n, x = one(c, 'positions', 'position iterations', top, lambda x: has(x, 'solve_position_constraints') or has(x, 'joint solve_position_constraints'))
    stage.append(n)
    after, solved = None, None
    if x is not None and c.ob('positions', 'position constraints are iterated', x.kind == 'loop', ''):
        after, solved = position_loop(c, r, Loop(x), POS)
    if after is None:
        return

    c.rule('copy', 'the results are copied to every body, its transform follows, and impulses are reported')
    n, x = one(c, 'copy', 'copying back', top, lambda x: has(x, 'sync'))
    stage.append(n)
    if x is not None and c.ob('copy', 'copying back is a pass', x.kind == 'loop', ''):
        L = Loop(x)
        k = over(c, 'copy', 'bodies', L, NB(), after)
        if k:
            i, live = k
            b = bodies(i)
            u = live & after
            p, v = last(r, x, 'm_positions', i), last(r, x, 'm_velocities', i)
            want = vecs({('m_sweep', 'c'): p.vec('c'), ('m_sweep', 'a'): p.num('a'), ('m_linear_velocity',): v.vec('v'), ('m_angular_velocity',): v.num('w')})
            row_writes(c, 'copy', 'bodies', r, L.sub, u, [(b, b, want)])
            expect_calls(c, 'copy', 'bodies', L.sub, 'sync', [((b.ptr(),), S(TRUE))], under=u)
            synced(c, r, L, b, want, u)
    n, x = one(c, 'copy', 'report', top, lambda x: x.kind == 'call' and x.name == 'report')
    stage.append(n)
    if x is not None:
        c.ob('copy', 'reported always', x.guard == after.n, 'when ' + E.show(x.guard, 3)[:200])
        c.ob('copy', 'reports the solved impulses', x.args[0] == ME.ptr() and 'm_velocity_constraints' in E.show(x.args[1], 4), E.show(x.args[1], 4))

    c.rule('sleep', 'an island whose members have all been slow for long enough, with positions solved, falls asleep as a whole')
    sl = after & sym('sleep').bool()
    n, x = one(c, 'sleep', 'sleep timing', top, lambda x: touches(x, 'm_sleep_time'))
    stage.append(n)
    lowest = None
    if x is not None:
        L = Loop(x)
        k = over(c, 'sleep', 'members', L, NB(), sl)
        if k:
            i, live = k
            b = bodies(i)
            u = live & sl
            v, w = b.vec('m_linear_velocity'), b.num('m_angular_velocity')
            active = ~b.flag(AUTOSLEEP, 'm_flags') | (w * w > sq(0.034906588)) | (dot(v, v) > sq(0.01))
            stat = b.at('m_type').is_(0, 3)
            t = b.num('m_sleep_time')
            t2 = ite(stat, t, ite(active, k_(0), t + h))
            row_writes(c, 'sleep', 'members', r, L.sub, u, [(b, b, {('m_sleep_time',): t2})])
            back = L.e.info['back_pc']
            for key, (init, m, nx) in L.mus.items():
                if nx is None or not E.isnum(m) or not is_term(m):
                    continue
                want = ite(stat, S(m), ite(active, k_(0), smin(S(m), t2)))
                # it is never negative, so the smaller of it and 0 is 0 too
                other = ite(stat, S(m), smin(S(m), ite(active, k_(0), t2)))
                if any(same(E.constrain(nx, back), E.constrain(w.n, back)) for w in (want, other)):
                    lowest = S(m)
                    ok = is_term(init) and E.isnum(init) and (S(init) >= TSLEEP).n == TRUE
                    c.ob('sleep', 'the shortest time starts out unlimited', ok, E.show(init, 2))
            c.ob('sleep', 'the shortest time of all members is kept', lowest is not None, str([E.show(nx, 5)[:200] for k2, (a, m, nx) in L.mus.items() if nx is not None and E.isnum(m)]))
    n, x = one(c, 'sleep', 'falling asleep', top, lambda x: has(x, 'wake'))
    stage.append(n)
    if x is not None and lowest is not None and c.ob('sleep', 'falling asleep is a pass', x.kind == 'loop', ''):
        L = Loop(x)
        g = sl & (lowest >= TSLEEP) & solved
        k = over(c, 'sleep', 'falling asleep', L, NB(), g)
        if k:
            i, live = k
            expect_calls(c, 'sleep', 'falling asleep', L.sub, 'wake', [((bodies(i).ptr(), FALSE), S(TRUE))], under=live & g)
            row_writes(c, 'sleep', 'falling asleep', r, L.sub, live & g, [])
    st = [s for s in stage if s is not None]
    c.ob('phases', 'the phases keep their order', st == sorted(st), str(stage))
    c.ob('phases', 'there is no other phase', len(set(st)) == len(top), '%d phases for %d' % (len(top), len(set(st))))
    same_solver(c, r)
    row_writes(c, 'phases', 'the island', r, es, S(TRUE), [], ignore=('profile.',))


def sq(x): return f32(x) * f32(x)


def same_solver(c, r):
    got = {E.show(x.args[0], 3) for x in every(r.effects) if x.kind == 'call' and x.name in ('initialize_velocity_constraints', 'warm_start', 'solve_velocity_constraints', 'store_impulses', 'solve_position_constraints', 'solve_toiposition_constraints')}
    rep = {E.show(x.args[1], 4).split('.m_velocity')[0] for x in every(r.effects) if x.kind == 'call' and x.name == 'report'}
    c.ob('phases', 'one contact solver is used throughout', len(got | rep) == 1, str(got | rep))


def joint_pass(c, r, L, name, guard, tail):
    k = over(c, 'phases', name, L, NJ(), guard)
    if not k:
        return
    j, live = k
    jp = ME.at('m_joints', ('i', j.n)).ptr()
    expect_calls(c, 'phases', name, L.sub, name, [((jp, None) + tail, S(TRUE))], under=live & S(L.guard))
    for x in calls(L.sub, name):
        step_fields(c, 'phases', name, r, x.args[1], x.mem)
    row_writes(c, 'phases', name, r, L.sub, live & S(L.guard), [])


def last(r, loop_effect, arr, i):
    """the array's element as the loop sees it."""
    for x in reversed(r.effects[:r.effects.index(loop_effect)]):
        if x.kind == 'loop':
            o = entry_of(Loop(x), 'self.' + arr)
            if o is not None:
                return o.at(('i', i.n))
    return ME.at(arr, ('i', i.n))


def synced(c, r, L, b, want, u):
    rule = 'copy'
    for x in calls(L.sub, 'sync'):
        for k, v in want.items():
            g = E.constrain(r.value(b.ptr(), k, mem=x.mem, like=v.n), u.n)
            c.ob(rule, 'the transform follows the new ' + '.'.join(k), same(g, E.constrain(v.n, u.n)) if k[0] == 'm_sweep' else True, E.show(g, 3)[:150])


def move(c, r, L, h, guard, toi):
    k = over(c, 'move', 'bodies', L, NB(), guard)
    if not k:
        return
    i, live = k
    p, v = entry_of(L, 'self.m_positions'), entry_of(L, 'self.m_velocities')
    if not c.ob('move', 'positions and velocities are updated', p is not None and v is not None, ''):
        return
    p, v = p.at(('i', i.n)), v.at(('i', i.n))
    v2, w2 = limit(h, v.vec('v'), v.num('w'))
    np_, na = p.vec('c') + h * v2, p.num('a') + h * w2
    rows = [(pos(i), p, vecs({('c',): np_, ('a',): na})), (vel(i), v, vecs({('v',): v2, ('w',): w2}))]
    u = live & guard
    b = bodies(i)
    want = vecs({('m_sweep', 'c'): np_, ('m_sweep', 'a'): na, ('m_linear_velocity',): v2, ('m_angular_velocity',): w2})
    if toi:
        rows.append((b, b, want))
    row_writes(c, 'move', 'bodies', r, L.sub, u, rows)
    if toi:
        expect_calls(c, 'move', 'bodies', L.sub, 'sync', [((b.ptr(),), S(TRUE))], under=u)
        for x in calls(L.sub, 'sync'):
            for k2 in (('m_sweep', 'c', 'x'), ('m_sweep', 'c', 'y'), ('m_sweep', 'a')):
                g = E.constrain(r.value(b.ptr(), k2, mem=x.mem, like=want[k2].n), u.n)
                c.ob('move', 'the transform follows the new ' + '.'.join(k2), same(g, E.constrain(want[k2].n, u.n)), E.show(g, 3)[:150])


def position_loop(c, r, L, POS):
    n = sym('step').num('position_iterations')
    cok, jok = sym('contacts_ok').bool(), sym('joint_ok').bool()
    c.ob('positions', 'always attempted', L.guard == TRUE, E.show(L.guard, 3))
    js = inner(L)
    if not c.ob('positions', 'joints are corrected in each iteration', len(js) == 1, '%d passes' % len(js)):
        return None, None
    M = js[0]
    ctr = None
    for key, (i, m, nx) in L.mus.items():
        if nx is not None and E.isnum(m) and i == E.ZERO and E.constrain(nx, L.e.info['back_pc']) == E.add(m, E.ONE):
            ctr = S(m)
    if not c.ob('positions', 'iterations are counted', ctr is not None, ''):
        return None, None
    live = ctr < n
    okv = None
    for key, (i, m, nx) in M.mus.items():
        if nx is not None and E.isbool(m):
            back = M.e.info['back_pc']
            sv = S(m)
            if i == TRUE and E.constrain(nx, back) == E.constrain((sv & jok).n, back):
                okv = sv
            elif i == cok.n and E.constrain(nx, back) == E.constrain((sv & jok).n, back):
                okv = sv
    if not c.ob('positions', 'joints agree only if every joint does', okv is not None, str([(E.show(i, 2), E.show(nx, 4)) for i, m, nx in M.mus.values()])[:300]):
        return None, None
    k = counted(c, 'positions', 'joints', M, NJ())
    c.ob('positions', 'joints are corrected in every iteration', M.guard == live.n, E.show(M.guard, 3))
    if k:
        j, lj = k
        expect_calls(c, 'positions', 'joints', M.sub, 'joint solve_position_constraints', [((ME.at('m_joints', ('i', j.n)).ptr(), None, POS), S(TRUE))], under=live & lj)
        for x in calls(M.sub, 'joint solve_position_constraints'):
            step_fields(c, 'positions', 'joints', r, x.args[1], x.mem)
    expect_calls(c, 'positions', 'contacts', L.sub, 'solve_position_constraints', [((None, POS), live)])
    before(c, 'positions', 'iteration', L.sub, 'solve_position_constraints', 'joint solve_position_constraints')
    good = cok & okv
    c.ob('positions', 'continues exactly while something disagrees and iterations remain', L.e.info['back_pc'] == (live & ~good).n, 'continues when ' + E.show(L.e.info['back_pc'], 4)[:200])
    out = FALSE
    for x in L.exits:
        out = E.OR(out, x)
    after = ~live | good
    c.ob('positions', 'stops otherwise', out == after.n, E.show(out, 4)[:200])
    row_writes(c, 'positions', 'iterations', r, list(every(L.sub)), S(TRUE), [])
    return after, live & good


def toi(c, P):
    c.rule('toi', 'an impact is resolved from the bodies\' current state: positions first, then velocities without warm starting, then the rest of the step')
    r = summarise(c, P, I + 'solve_toi', names=['self', 'step', 'ia', 'ib'], hooks=hooks())
    es = r.effects
    POS, VEL, CON = place(ME, 'm_positions'), place(ME, 'm_velocities'), place(ME, 'm_contacts')
    top = [x for x in es if x.kind in ('loop',) or (x.kind == 'call' and x.info.get('rec'))]
    c.ob('toi', 'never fails', panics(r).n == FALSE, E.show(panics(r).n, 3))
    st = []
    n, x = one(c, 'toi', 'state', top, lambda x: touches(x, 'm_positions') and not touches(x, 'm_sweep'))
    st.append(n)
    if x is not None:
        L = Loop(x)
        k = over(c, 'toi', 'state', L, NB(), S(TRUE))
        if k:
            i, live = k
            b = bodies(i)
            row_writes(c, 'toi', 'state', r, L.sub, live, [
                (pos(i), entry_of(L, 'self.m_positions').at(('i', i.n)), vecs({('c',): b.vec('m_sweep', 'c'), ('a',): b.num('m_sweep', 'a')})),
                (vel(i), entry_of(L, 'self.m_velocities').at(('i', i.n)), vecs({('v',): b.vec('m_linear_velocity'), ('w',): b.num('m_angular_velocity')}))])
    n, x = one(c, 'toi', 'contact solver', top, lambda x: x.kind == 'call' and x.name == 'new')
    st.append(n)
    if x is not None:
        expect_calls(c, 'toi', 'contact solver', es, 'new', [((None, CON), S(TRUE))])
        step_fields(c, 'toi', 'contact solver', r, x.args[0], x.mem)
    n, x = one(c, 'toi', 'position iterations', top, lambda x: has(x, 'solve_toiposition_constraints'))
    st.append(n)
    if x is None or not c.ob('toi', 'positions are iterated', x.kind == 'loop', ''):
        return
    L = Loop(x)
    ctr = None
    for key, (i, m, nx) in L.mus.items():
        if nx is not None and E.isnum(m) and i == E.ZERO and E.constrain(nx, L.e.info['back_pc']) == E.add(m, E.ONE):
            ctr = S(m)
    if not c.ob('toi', 'iterations are counted', ctr is not None, ''):
        return
    live = ctr < sym('step').num('position_iterations')
    ok = sym('contacts_ok').bool()
    expect_calls(c, 'toi', 'positions', L.sub, 'solve_toiposition_constraints', [((None, sym('ia').num().n, sym('ib').num().n, POS), live)])
    c.ob('toi', 'continues exactly while contacts disagree and iterations remain', L.e.info['back_pc'] == (live & ~ok).n, E.show(L.e.info['back_pc'], 4)[:200])
    out = FALSE
    for y in L.exits:
        out = E.OR(out, y)
    after = ~live | ok
    c.ob('toi', 'stops otherwise', out == after.n, E.show(out, 4)[:200])
    ia, ib = sym('ia').num(), sym('ib').num()
    rows = []
    for q in (ia, ib):
        p = last(r, x, 'm_positions', q)
        b = bodies(q)
        rows.append((b, b, vecs({('m_sweep', 'c0'): p.vec('c'), ('m_sweep', 'a0'): p.num('a')})))
    row_writes(c, 'toi', 'the two bodies start anew at the safe pose', r, es, after, rows)
    at = es.index(x)
    c.ob('toi', 'safe poses are taken after correction', all(es.index(y) > at for y in es if y.kind == 'write' and outside(y)), '')
    n, x = one(c, 'toi', 'initialisation', top, lambda x: has(x, 'initialize_velocity_constraints'))
    st.append(n)
    expect_calls(c, 'toi', 'velocities', es, 'initialize_velocity_constraints', [((None, POS, VEL, CON), after)])
    n, x = one(c, 'toi', 'velocity iterations', top, lambda x: has(x, 'solve_velocity_constraints'))
    st.append(n)
    if x is not None and c.ob('toi', 'velocities are iterated', x.kind == 'loop', ''):
        k = over(c, 'toi', 'velocity iterations', Loop(x), sym('step').num('velocity_iterations'), after)
        if k:
            i, lv = k
            expect_calls(c, 'toi', 'velocities', x.sub, 'solve_velocity_constraints', [((None, VEL), S(TRUE))], under=lv & after)
    c.ob('toi', 'no warm starting and no stored impulses', not any(has(y, 'warm_start') or has(y, 'store_impulses') for y in es), '')
    n, x = one(c, 'toi', 'integration', top, lambda x: has(x, 'sync'))
    st.append(n)
    if x is not None:
        move(c, r, Loop(x), sym('step').num('dt'), after, True)
    n, x = one(c, 'toi', 'report', top, lambda x: x.kind == 'call' and x.name == 'report')
    st.append(n)
    if x is not None:
        c.ob('toi', 'reported always', x.guard == after.n, E.show(x.guard, 3)[:200])
        c.ob('toi', 'reports the solved impulses', x.args[0] == ME.ptr() and 'm_velocity_constraints' in E.show(x.args[1], 4), E.show(x.args[1], 4))
    st = [s for s in st if s is not None]
    c.ob('toi', 'the phases keep their order', st == sorted(st) and len(set(st)) == len(top), str(st))
    same_solver(c, r)


def report(c, P):
    c.rule('report', 'each contact of the island is reported once to the listener with the impulses of its points')
    PS = 'b2_world_callbacks::B2contactListener::post_solve'
    for n in (0, 1, 2):
        r = summarise(c, P, I + 'report', names=['self', 'vcs'], hooks={PS: record('post solve')}, fix={'point_count': nd(k_(n))}, unroll=3)
        lst = ME.at('m_listener')
        has_l = ~isnone(lst)
        same_len = S(E.like(ME.at('m_contacts', 'len').n, E.ZERO)).eq(S(E.like(sym('vcs').at('len').n, E.ZERO)))
        ls = loops(r)
        if not c.ob('report', 'one pass (%d points)' % n, len(ls) == 1, '%d' % len(ls)):
            continue
        L = ls[0]
        np = ~panics_top(r)
        c.ob('report', 'fails only when constraints and contacts do not match', E.AND(panics_top(r).n, (same_len | ~has_l).n) == FALSE, E.show(panics_top(r).n, 3))
        c.ob('report', 'reports exactly when there is a listener', E.AND(L.guard, np.n) == E.AND(has_l.n, np.n), E.show(L.guard, 3))
        k = counted(c, 'report', 'contacts (%d points)' % n, L, S(E.like(ME.at('m_contacts', 'len').n, E.ZERO)))
        if not k:
            continue
        i, live = k
        u = live & S(L.guard) & np
        lp = ME.ptr('m_listener', *SOME)
        ct = ME.at('m_contacts', ('i', i.n))
        expect_calls(c, 'report', '%d points' % n, L.sub, 'post solve', [((lp, ct.ptr(), None), S(TRUE))], under=u)
        for x in calls(L.sub, 'post solve'):
            g = r.value(x.args[2], ('count',), mem=x.mem)
            c.ob('report', 'count %d' % n, same(g, E.const(n)), E.show(g, 3))
            for j in range(n):
                for f, q in (('normal_impulses', 'normal_impulse'), ('tangent_impulses', 'tangent_impulse')):
                    g = r.value(x.args[2], (f, ('i', E.const(j))), mem=x.mem)
                    w = sym('vcs').at(('i', i.n), 'points', ('i', E.const(j))).num(q)
                    c.ob('report', '%s %d of %d' % (q, j, n), same(E.constrain(g, u.n), w.n), E.show(g, 3)[:150])
        row_writes(c, 'report', 'reporting', r, L.sub, u, [])
