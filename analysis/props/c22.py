"""The step protocol."""
from ..spec import *
from .worldlib import *

W = 'b2_world::B2world::<D>::'
HOOKS = {MGR + 'find_new_contacts': record('pairs'), MGR + 'collide': record('collide'), W + 'solve': record('solve'), W + 'solve_toi': record('toi'), W + 'clear_forces': record('forget')}
PHASES = ('pairs', 'collide', 'solve', 'toi', 'forget')


def check(c):
    P = c.P
    step(c, P)
    clear(c, P)


def step(c, P):
    c.rule('step', 'a step finds pending pairs, updates contacts, solves when time passes, then handles impacts when enabled, and clears forces when asked')
    w = sym('world')
    r = summarise(c, P, W + 'step', names=['world', 'dt', 'vi', 'pi'], hooks=HOOKS)
    dt = sym('dt').num()
    moves = dt > S(E.ZERO)
    mgr = w.ptr('m_contact_manager')
    np = ~panics(r)
    no_panic(c, 'step', 'step', r)
    on = {'pairs': w.bool('m_new_contacts'), 'collide': S(TRUE), 'solve': moves & w.bool('m_step_complete'), 'toi': moves & w.bool('m_continuous_physics'), 'forget': w.bool('m_clear_forces')}
    arg = {'pairs': (mgr,), 'collide': (mgr,), 'solve': (w.ptr(), None), 'toi': (w.ptr(), None), 'forget': (w.ptr(),)}
    for k in PHASES:
        expect_calls(c, 'step', 'step', r.effects, k, [(arg[k], on[k])])
    for i, k in enumerate(PHASES):
        for q in PHASES[i + 1:]:
            before(c, 'step', 'step', r.effects, k, q)
    ls = loops(r)
    c.ob('step', 'no phase is repeated', not any(calls(L.sub, k) for L in ls for k in PHASES), '')
    for k in ('collide', 'solve', 'toi'):
        for x in calls(r.effects, k):
            g = at_call(r, x, w.ptr(), 'm_locked')
            c.ob('step', 'the world is locked during %s' % k, g == TRUE, E.show(g, 3))
            g = at_call(r, x, w.ptr(), 'm_new_contacts')
            c.ob('step', 'pending pairs are no longer pending during %s' % k, g == FALSE, E.show(g, 3))
    want = {'dt': dt, 'inv_dt': ite(moves, S(E.ONE) / dt, S(E.ZERO)), 'dt_ratio': w.num('m_inv_dt0') * dt, 'velocity_iterations': sym('vi').num(), 'position_iterations': sym('pi').num(), 'warm_starting': w.bool('m_warm_starting')}
    for k in ('solve', 'toi'):
        for x in calls(r.effects, k):
            for f, v in want.items():
                g = E.constrain(r.value(x.args[1], (f,), mem=x.mem), x.guard)
                c.ob('step', '%s is given %s' % (k, f), same(g, E.constrain(nd(v), x.guard)), E.show(g, 4)[:200])
    ch = {'world.m_inv_dt0': ite(moves, S(E.ONE) / dt, w.num('m_inv_dt0')), 'world.m_locked': S(FALSE), 'world.m_new_contacts': S(FALSE)}
    got = {E.showloc(*x.loc) for x in writes(r.effects) if outside(x)}
    left = {x for x in got if not x.startswith('world.m_profile')} - set(ch)
    c.ob('step', 'step changes only its own state', not left, str(sorted(left)))
    for k, v in ch.items():
        f = k.split('.')[1]
        g = r.value(w.ptr(), (f,))
        c.ob('step', f + ' after the step', same(g, nd(v)), E.show(g, 4)[:200])


def clear(c, P):
    c.rule('clear', 'clearing forces zeroes the accumulated force and torque of every body and nothing else')
    w = sym('world')
    r = summarise(c, P, W + 'clear_forces', names=['world'])
    no_panic(c, 'clear', 'clear', r)
    head = w.at('m_body_list', 'head')
    L = pick(c, 'clear', 'clear forces', loops(r), head)
    if L:
        k = walk(c, 'clear', 'clear forces', L, head, ('m_next',), S(TRUE), S(TRUE))
        if k:
            b, live = k
            z = S(E.ZERO)
            iteration_writes(c, 'clear', 'clear forces', L, b, {('m_force', 'x'): z, ('m_force', 'y'): z, ('m_torque',): z}, live)
    expect_changes(c, 'clear', 'clear forces', r, {})
