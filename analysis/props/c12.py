"""Mass model: what mass, inertia and centre a body has, for every type, flag and fixture set."""
from .bodylib import *
from .worldlib import fails_beyond, panics_top

CM = 'b2_shape::B2shapeDynTrait::compute_mass'


def mass_hook():
    return pure('compute_mass', outs={1: {'mass': 'num', 'center': 'vec', 'i': 'num'}})


def acc(c, rule, name, r):
    """the fixture loop: returns (mass sum, first moment, inertia sum) or None."""
    ls = loops(r)
    if not c.ob(rule, name + ' one pass over the fixtures', len(ls) == 1 and len(ls[0].cursors()) == 1, 'loops: %d' % len(ls)):
        return None
    l = ls[0]
    s, i, el = l.cursors()[0]
    head = sym('self').at('m_fixture_list', 'head').n
    c.ob(rule, name + ' starts at the first fixture', i == head, E.show(i))
    none = E.is_variant(s, 0, 2)
    g = E.AND(l.guard, none)
    c.ob(rule, name + ' visits every fixture', all(E.AND(x, E.NOT(none)) == FALSE for x in l.exits), 'loop may stop early: %s' % [E.show(x, 4) for x in l.exits])
    den = el.num('m_density')
    shape = el.at('m_shape', ('d', 'Some'), '0').ptr()
    ins = (shape, den.n)
    use = ~den.eq(0)
    under = S(E.AND(l.guard, E.NOT(none)))
    mass, cen, ine = pure_num('compute_mass.mass', *ins), pure_vec('compute_mass.center', *ins), pure_num('compute_mass.i', *ins)
    out = []
    for what, d in (('mass', mass), ('first moment x', mass * cen.x), ('first moment y', mass * cen.y), ('inertia', ine)):
        f = l.find(delta=ite(use, d, 0), init=k(0), under=under)
        c.ob(rule, name + ' sums ' + what, len(f) >= 1, 'no state accumulates the %s of each fixture with nonzero density' % what)
        if not f:
            return None
        out.append(f[0])
    return out[0], V(out[1], out[2]), out[3]


def reset_spec(b, M, moment, I, v, w, fixrot):
    ns = b.dynamic
    pos = M > 0
    lc = ite(pos, (k(1) / M) * moment, moment)
    Ic = I - M * dot(lc, lc)
    rot_ = (I > 0) & ~fixrot
    c_new = mulx(b.xf, lc)
    zero = V(0, 0)
    return {
        'm_mass': ite(ns, M, 0), 'm_inv_mass': ite(ns & pos, k(1) / M, 0),
        'm_i': ite(ns & rot_, Ic, 0), 'm_inv_i': ite(ns & rot_, k(1) / Ic, 0),
        'm_sweep.local_center': ite(ns, lc, zero),
        'm_sweep.c0': ite(ns, c_new, b.xf.p), 'm_sweep.c': ite(ns, c_new, b.xf.p), 'm_sweep.a0': ite(ns, b.a0, b.a),
        'm_linear_velocity': ite(ns, v + crosssv(w, c_new - b.c), v), 'm_angular_velocity': w}


def check(c):
    c.rule('mass', 'body mass, inverse mass, rotational inertia about the centre of mass, centre and centre velocity are exactly the specified functions of the fixtures, type and flags; nothing else changes')
    P = c.P
    b = Body(sym('self'))

    def pre(d):
        return {'self.' + x: y for x, y in d.items()}

    def run(name, params, **kw):
        from ..engine import Engine
        e = Engine(P, **kw)
        e.hooks[CM] = mass_hook()
        f = find_fn(P, B + name)
        r = e.analyse(f, names=['self'] + params)
        c.saw(f['uid'], e.inlined)
        return r

    r = run('reset_mass_data', [])
    a = acc(c, 'mass', 'reset_mass_data', r)
    if a:
        lc = ite(a[0] > 0, (k(1) / a[0]) * a[1], a[1])
        bad = E.AND(nd(panics_top(r)), (~(b.dynamic & (a[2] > 0) & ~b.flag(FIXROT) & (a[2] - a[0] * dot(lc, lc) <= 0))).n)
        c.ob('mass', 'reset_mass_data fails only for impossible inertia', fails_beyond(bad) == FALSE, 'fails when ' + E.show(bad, 5)[:300])
        expect_changes(c, 'mass', 'reset_mass_data', r, pre(reset_spec(b, a[0], a[1], a[2], b.v, b.w, b.flag(FIXROT))), under=S(r.st.pc))
    # asserts only on the precondition that a rotating body has positive centred inertia
    # --- explicit mass data
    r = run('set_mass_data', ['md'])
    md = sym('md')
    m = ite(md.num('mass') > 0, md.num('mass'), 1)
    ce = md.vec('center')
    rot_ = (md.num('i') > 0) & ~b.flag(FIXROT)
    Ic = md.num('i') - m * dot(ce, ce)
    dy = b.dynamic & ~sym('self').bool('m_world', 'm_locked')
    c_new = mulx(b.xf, ce)
    expect_changes(c, 'mass', 'set_mass_data', r, pre({
        'm_mass': ite(dy, m, b.m), 'm_inv_mass': ite(dy, k(1) / m, b.invm),
        'm_i': ite(dy, ite(rot_, Ic, 0), b.i), 'm_inv_i': ite(dy, ite(rot_, k(1) / Ic, 0), b.invi),
        'm_sweep.local_center': ite(dy, ce, b.lc), 'm_sweep.c0': ite(dy, c_new, b.c0), 'm_sweep.c': ite(dy, c_new, b.c),
        'm_linear_velocity': ite(dy, b.v + crosssv(b.w, c_new - b.c), b.v)}), under=S(r.st.pc))
    bad = fails_beyond(panics(r), sym('self').bool('m_world', 'm_locked') | (b.dynamic & rot_ & (Ic <= 0)))
    c.ob('mass', 'set_mass_data accepts every possible mass', bad == FALSE, 'fails when ' + E.show(bad, 5)[:300])
    # --- fixed rotation
    r = run('set_fixed_rotation', ['flag'])
    fl = sym('flag').bool()
    same_ = ~(fl ^ b.flag(FIXROT))
    a = acc(c, 'mass', 'set_fixed_rotation', r)
    if a:
        w = reset_spec(b, a[0], a[1], a[2], b.v, k(0), fl)
        init = {'m_mass': b.m, 'm_inv_mass': b.invm, 'm_i': b.i, 'm_inv_i': b.invi, 'm_sweep.local_center': b.lc, 'm_sweep.c0': b.c0, 'm_sweep.c': b.c, 'm_sweep.a0': b.a0,
                'm_linear_velocity': b.v, 'm_angular_velocity': b.w}
        want = {x: ite(same_, init[x], w[x]) for x in w}
        want['m_flags#4'] = fl
        expect_changes(c, 'mass', 'set_fixed_rotation', r, pre(want), under=S(r.st.pc))
