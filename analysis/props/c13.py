"""Body motion API: complete input/output specification of velocity, force, impulse, sleep and query methods."""
from .bodylib import *


def check(c):
    c.rule('effect', 'the method changes exactly the listed body state, to exactly the specified value, under every combination of body type, awake flag, wake argument and operand values')
    c.rule('value', 'the method returns exactly the specified value and changes nothing')
    P = c.P
    b = Body(sym('self'))
    S_ = 'self'

    def eff(name, params, want, **kw):
        r = summarise(c, P, B + name, names=['self'] + params)
        w = {}
        for p, x in want.items():
            w[S_ + '.' + p] = x
        expect_changes(c, 'effect', name, r, w)
        c.sample('%s: %s' % (name, {k_: E.show(v, 3)[:60] for k_, v in list(changes(r).items())[:3]}))

    def val(name, params, want, by_ref=False):
        r = summarise(c, P, B + name, names=['self'] + params)
        expect_changes(c, 'value', name + ' frame', r, {})
        w = {}
        expand('', want, w)
        for p, x in w.items():
            got = ret_at(r, p)
            c.ob('value', name + ' result' + p, same(got, x), 'expected %s, code returns %s' % (E.show(nd(x), 5), E.show(got, 5)))

    num, boo, vec = lambda n: sym(n).num(), lambda n: sym(n).bool(), lambda n: sym(n).vec()

    # --- velocities
    v, w = vec('v'), num('w')
    wake = dot(v, v) > 0
    ns = ~b.static
    eff('set_linear_velocity', ['v'], {
        'm_flags#1': b.awake | (ns & wake), 'm_sleep_time': ite(ns & wake, 0, b.st),
        'm_linear_velocity': ite(ns, v, b.v)})
    wake = (w * w) > 0
    eff('set_angular_velocity', ['w'], {
        'm_flags#1': b.awake | (ns & wake), 'm_sleep_time': ite(ns & wake, 0, b.st),
        'm_angular_velocity': ite(ns, w, b.w)})
    # --- forces and impulses
    force, point, wk = vec('force'), vec('point'), boo('wake')
    act = b.dynamic & (b.awake | wk)
    woken = {'m_flags#1': b.awake | (b.dynamic & wk), 'm_sleep_time': ite(b.dynamic & wk & ~b.awake, 0, b.st)}
    arm = cross(point - b.c, force)
    eff('apply_force', ['force', 'point', 'wake'], dict(woken, m_force=ite(act, b.f + force, b.f), m_torque=ite(act, b.t + arm, b.t)))
    eff('apply_force_to_center', ['force', 'wake'], dict(woken, m_force=ite(act, b.f + force, b.f)))
    tq = num('torque')
    eff('apply_torque', ['torque', 'wake'], dict(woken, m_torque=ite(act, b.t + tq, b.t)))
    imp = vec('impulse')
    arm = cross(point - b.c, imp)
    eff('apply_linear_impulse', ['impulse', 'point', 'wake'], dict(woken, m_linear_velocity=ite(act, b.v + b.invm * imp, b.v), m_angular_velocity=ite(act, b.w + b.invi * arm, b.w)))
    eff('apply_linear_impulse_to_center', ['impulse', 'wake'], dict(woken, m_linear_velocity=ite(act, b.v + b.invm * imp, b.v)))
    ai = num('impulse')
    eff('apply_angular_impulse', ['impulse', 'wake'], dict(woken, m_angular_velocity=ite(act, b.w + b.invi * ai, b.w)))
    # --- sleeping
    fl = boo('flag')
    z = ns & ~fl
    zero = V(0, 0)
    eff('set_awake', ['flag'], {
        'm_flags#1': ite(ns, fl, b.awake), 'm_sleep_time': ite(ns, 0, b.st), 'm_linear_velocity': ite(z, zero, b.v), 'm_angular_velocity': ite(z, 0, b.w),
        'm_force': ite(z, zero, b.f), 'm_torque': ite(z, 0, b.t)})
    eff('set_sleeping_allowed', ['flag'], {
        'm_flags#2': fl, 'm_flags#1': b.awake | (ns & ~fl), 'm_sleep_time': ite(ns & ~fl, 0, b.st)})
    val('is_awake', [], b.awake)
    val('is_sleeping_allowed', [], b.flag(AUTOSLEEP))
    # --- plain state
    val('get_linear_velocity', [], b.v)
    val('get_angular_velocity', [], b.w)
    val('get_position', [], b.xf.p)
    val('get_angle', [], b.a)
    val('get_transform', [], b.xf)
    val('get_world_center', [], b.c)
    val('get_local_center', [], b.lc)
    for n, f in (('linear_damping', 'm_linear_damping'), ('angular_damping', 'm_angular_damping'), ('gravity_scale', 'm_gravity_scale')):
        val('get_' + n, [], sym('self').num(f))
        eff('set_' + n, ['value'], {f: num('value')})
    val('is_bullet', [], b.flag(BULLET))
    eff('set_bullet', ['flag'], {'m_flags#3': fl})
    val('is_enabled', [], b.flag(ENABLED))
    val('is_fixed_rotation', [], b.flag(FIXROT))
    val('get_mass', [], b.m)
    val('get_inertia', [], b.i + b.m * dot(b.lc, b.lc))
    r = summarise(c, P, B + 'get_mass_data', names=['self', 'data'])
    expect_changes(c, 'effect', 'get_mass_data', r, {'data.mass': b.m, 'data.i': b.i + b.m * dot(b.lc, b.lc), 'data.center': b.lc})
    # --- frames and point velocities
    p = vec('p')
    val('get_world_point', ['p'], mulx(b.xf, p))
    val('get_world_vector', ['p'], mulq(b.xf.q, p))
    val('get_local_point', ['p'], mulxT(b.xf, p))
    val('get_local_vector', ['p'], mulqT(b.xf.q, p))
    val('get_linear_velocity_from_world_point', ['p'], b.v + crosssv(b.w, p - b.c))
    val('get_linear_velocity_from_local_point', ['p'], b.v + crosssv(b.w, mulx(b.xf, p) - b.c))


def ret_at(r, path):
    keys = tuple(x for x in path.split('.') if x)
    n = r.ret
    return r.value(n, keys)
