"""Joint constraints: what each joint type's three solver stages must compute.

Every specification is written from the constraint equations: effective masses, impulses and their application
through `Two.apply`, which is equal-and-opposite by construction."""
import math
from .bodylib import Body
from ..spec import *

SLOP = f32(0.005)
ASLOP = f32(2.0 / 180.0 * math.pi)
MAXA = f32(8.0 / 180.0 * math.pi)
J = '<joints::b2_%s_joint::B2%sJoint<D> as b2_joint::B2jointTraitDyn<D>>::%s'
T = 'joints::b2_%s_joint::B2%sJoint::<D>::%s'
me = sym('self')
data = sym('data')
pos, vel = sym('positions'), sym('velocities')
dt, inv_dt, ratio, warm = data.num('step', 'dt'), data.num('step', 'inv_dt'), data.num('step', 'dt_ratio'), data.bool('step', 'warm_starting')
bodyA, bodyB = me.at('base', 'm_body_a'), me.at('base', 'm_body_b')


def n(f): return me.num(*f.split('.'))
def v(f): return me.vec(*f.split('.'))
def bl(f): return me.bool(*f.split('.'))


def inv0(x):
    """1/x, or x itself when it is zero (the solver's convention)."""
    return ite(x.eq(0), x, k(1) / x)


def invpos(x):
    return ite(x > 0, k(1) / x, x)


def inv_or0(x):
    return ite(x.eq(0), 0, k(1) / x)


class Two:
    """state of two bodies under equal and opposite impulses."""

    def __init__(self, va, wa, vb, wb, ma, mb, ia, ib):
        self.va, self.wa, self.vb, self.wb = va, wa, vb, wb
        self.ma, self.mb, self.ia, self.ib = ma, mb, ia, ib

    def apply(self, p, la, lb, on=None):
        va, wa, vb, wb = self.va - self.ma * p, self.wa - self.ia * la, self.vb + self.mb * p, self.wb + self.ib * lb
        if on is not None:
            va, wa, vb, wb = ite(on, va, self.va), ite(on, wa, self.wa), ite(on, vb, self.vb), ite(on, wb, self.wb)
        self.va, self.wa, self.vb, self.wb = va, wa, vb, wb

    def at(self, p, ra, rb, t=0, on=None):
        """impulse p at lever arms ra, rb plus angular impulse t."""
        self.apply(p, cross(ra, p) + t, cross(rb, p) + t, on)

    def spin(self, t, on=None):
        self.apply(V(0, 0), k(0) + t, k(0) + t, on)

    def cdot(self, ra, rb):
        return self.vb + crosssv(self.wb, rb) - self.va - crosssv(self.wa, ra)


def idx(arr, i):
    return arr.at(('i', nd(i)))


class Ctx:
    """what init_velocity_constraints reads from the bodies."""

    def __init__(self):
        self.A, self.B = Body(bodyA), Body(bodyB)
        self.ixa, self.ixb = bodyA.num('m_island_index'), bodyB.num('m_island_index')
        self.pa, self.pb = idx(pos, self.ixa), idx(pos, self.ixb)
        self.ca, self.cb, self.aa, self.ab = self.pa.vec('c'), self.pb.vec('c'), self.pa.num('a'), self.pb.num('a')
        self.ua, self.ub = idx(vel, self.ixa), idx(vel, self.ixb)
        self.qa, self.qb = rot(self.aa), rot(self.ab)
        self.two = Two(self.ua.vec('v'), self.ua.num('w'), self.ub.vec('v'), self.ub.num('w'), self.A.invm, self.B.invm, self.A.invi, self.B.invi)

    def cached(self):
        A, B_ = self.A, self.B
        return {'self.m_index_a': self.ixa, 'self.m_index_b': self.ixb, 'self.m_local_center_a': A.lc, 'self.m_local_center_b': B_.lc,
                'self.m_inv_mass_a': A.invm, 'self.m_inv_mass_b': B_.invm, 'self.m_inv_ia': A.invi, 'self.m_inv_ib': B_.invi}

    def out(self):
        t = self.two
        return {self.ua.at('v'): t.va, self.ua.at('w'): t.wa, self.ub.at('v'): t.vb, self.ub.at('w'): t.wb}


class Vel:
    """state used by solve_velocity_constraints."""

    def __init__(self):
        self.ua, self.ub = idx(vel, n('m_index_a')), idx(vel, n('m_index_b'))
        self.two = Two(self.ua.vec('v'), self.ua.num('w'), self.ub.vec('v'), self.ub.num('w'), n('m_inv_mass_a'), n('m_inv_mass_b'), n('m_inv_ia'), n('m_inv_ib'))
    out = Ctx.out


class Pos:
    """state used by solve_position_constraints (positions move like velocities)."""

    def __init__(self):
        self.ua, self.ub = idx(pos, n('m_index_a')), idx(pos, n('m_index_b'))
        self.two = Two(self.ua.vec('c'), self.ua.num('a'), self.ub.vec('c'), self.ub.num('a'), n('m_inv_mass_a'), n('m_inv_mass_b'), n('m_inv_ia'), n('m_inv_ib'))

    def out(self):
        t = self.two
        return {self.ua.at('c'): t.va, self.ua.at('a'): t.wa, self.ub.at('c'): t.vb, self.ub.at('a'): t.wb}

    def arms(self):
        t = self.two
        return mulq(rot(t.wa), v('m_local_anchor_a') - v('m_local_center_a')), mulq(rot(t.wb), v('m_local_anchor_b') - v('m_local_center_b'))


def K22(ma, mb, ia, ib, ra, rb):
    kxx = ma + mb + ra.y * ra.y * ia + rb.y * rb.y * ib
    kxy = -(ra.y * ra.x * ia) - rb.y * rb.x * ib
    kyy = ma + mb + ra.x * ra.x * ia + rb.x * rb.x * ib
    return kxx, kxy, kxy, kyy      # ex.x, ex.y, ey.x, ey.y


def solve22(kk, b):
    a11, a21, a12, a22 = kk
    d = inv0(a11 * a22 - a12 * a21)
    return V(d * (a22 * b.x - a12 * b.y), d * (a11 * b.y - a21 * b.x))


def inverse22(kk):
    a, c_, b, d_ = kk
    det = inv0(a * d_ - b * c_)
    return det * d_, -(det * c_), -(det * b), det * a


def mat22(m): return {'ex': V(m[0], m[1]), 'ey': V(m[2], m[3])}
def self22(f): return n(f + '.ex.x'), n(f + '.ex.y'), n(f + '.ey.x'), n(f + '.ey.y')
def mulm(m, x): return V(m[0] * x.x + m[2] * x.y, m[1] * x.x + m[3] * x.y)


def cross3(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def dot3(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def solve33(ex, ey, ez, b):
    d = inv0(dot3(ex, cross3(ey, ez)))
    return d * dot3(b, cross3(ey, ez)), d * dot3(ex, cross3(b, ez)), d * dot3(ex, cross3(ey, b))


def vec3(t): return {'x': t[0], 'y': t[1], 'z': t[2]}


def clamped(acc, imp, lo, hi):
    new = acc + imp
    if hi is not None:
        new = smin(new, hi)
    new = smax(new, lo)
    return new, new - acc


def soft(c, h, kk, d, extra=None):
    g = inv_or0(h * (d + h * kk))
    return g, c * h * kk * g


def zero_when(cond, x):
    return ite(cond, V(0, 0) if isinstance(x, V) else k(0), x)


# ---------------------------------------------------------------------------------------------- revolute
class Revolute:
    name, typ = 'revolute', 'Revolute'

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        axial = t.ia + t.ib
        fixed = ~(axial > 0)
        w = x.cached()
        w.update({'self.m_r_a': ra, 'self.m_r_b': rb, 'self.m_k': mat22(K22(t.ma, t.mb, t.ia, t.ib, ra, rb)), 'self.m_axial_mass': invpos(axial),
                  'self.m_angle': x.ab - x.aa - n('m_reference_angle')})
        nolim, nomot = ~bl('m_enable_limit') | fixed, ~bl('m_enable_motor') | fixed
        lo, up, mo = (zero_when(g, n(f)) * ratio for g, f in ((nolim, 'm_lower_impulse'), (nolim, 'm_upper_impulse'), (nomot, 'm_motor_impulse')))
        im = ratio * v('m_impulse')
        for f, y in (('m_impulse', im), ('m_lower_impulse', lo), ('m_upper_impulse', up), ('m_motor_impulse', mo)):
            w['self.' + f] = zero_when(~warm, y)
        t.at(im, ra, rb, mo + lo - up, on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        rotates = ~(t.ia + t.ib).eq(0)
        w = {}
        axial = n('m_axial_mass')
        on = bl('m_enable_motor') & rotates
        mx = dt * n('m_max_motor_torque')
        new, imp = clamped(n('m_motor_impulse'), -axial * (t.wb - t.wa - n('m_motor_speed')), -mx, mx)
        w['self.m_motor_impulse'] = ite(on, new, n('m_motor_impulse'))
        t.spin(imp, on)
        on = bl('m_enable_limit') & rotates
        new, imp = clamped(n('m_lower_impulse'), -axial * (t.wb - t.wa + smax(n('m_angle') - n('m_lower_angle'), 0) * inv_dt), k(0), None)
        w['self.m_lower_impulse'] = ite(on, new, n('m_lower_impulse'))
        t.spin(imp, on)
        new, imp = clamped(n('m_upper_impulse'), -axial * (t.wa - t.wb + smax(n('m_upper_angle') - n('m_angle'), 0) * inv_dt), k(0), None)
        w['self.m_upper_impulse'] = ite(on, new, n('m_upper_impulse'))
        t.spin(-imp, on)
        ra, rb = v('m_r_a'), v('m_r_b')
        imp = solve22(self22('m_k'), -t.cdot(ra, rb))
        w['self.m_impulse'] = v('m_impulse') + imp
        t.at(imp, ra, rb)
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        on = bl('m_enable_limit') & ~(t.ia + t.ib).eq(0)
        ang = t.wb - t.wa - n('m_reference_angle')
        lo, up = n('m_lower_angle'), n('m_upper_angle')
        c = ite(sabs(up - lo) < 2 * ASLOP, clamp(ang - lo, -MAXA, MAXA),
                ite(ang <= lo, clamp(ang - lo + ASLOP, -MAXA, 0), ite(ang >= up, clamp(ang - up - ASLOP, 0, MAXA), 0)))
        t.spin(-n('m_axial_mass') * c, on)
        aerr = ite(on, sabs(c), 0)
        ra, rb = x.arms()
        d = t.vb + rb - t.va - ra
        t.at(-solve22(K22(t.ma, t.mb, t.ia, t.ib, ra, rb), d), ra, rb)
        return x.out(), (length(d) <= SLOP) & (aerr <= ASLOP)


class Prismatic:
    name, typ = 'prismatic', 'Prismatic'
    axial_imp = 'm_motor_impulse'

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        d = x.cb - x.ca + rb - ra
        ax, pe = mulq(x.qa, v('m_local_xaxis_a')), mulq(x.qa, v('m_local_yaxis_a'))
        a1, a2, s1, s2 = cross(d + ra, ax), cross(rb, ax), cross(d + ra, pe), cross(rb, pe)
        w = x.cached()
        k22 = t.ia + t.ib
        k12 = t.ia * s1 + t.ib * s2
        w.update({'self.m_axis': ax, 'self.m_perp': pe, 'self.m_a1': a1, 'self.m_a2': a2, 'self.m_s1': s1, 'self.m_s2': s2,
                  'self.m_axial_mass': invpos(t.ma + t.mb + t.ia * a1 * a1 + t.ib * a2 * a2),
                  'self.m_k': mat22((t.ma + t.mb + t.ia * s1 * s1 + t.ib * s2 * s2, k12, k12, ite(k22.eq(0), 1, k22))),
                  'self.m_translation': ite(bl('m_enable_limit'), dot(ax, d), n('m_translation'))})
        lo, up, mo = (zero_when(~bl(g), n(f)) * ratio for g, f in (('m_enable_limit', 'm_lower_impulse'), ('m_enable_limit', 'm_upper_impulse'), ('m_enable_motor', 'm_motor_impulse')))
        im = ratio * v('m_impulse')
        for f, y in (('m_impulse', im), ('m_lower_impulse', lo), ('m_upper_impulse', up), ('m_motor_impulse', mo)):
            w['self.' + f] = zero_when(~warm, y)
        a = mo + lo - up
        t.apply(im.x * pe + a * ax, im.x * s1 + im.y + a * a1, im.x * s2 + im.y + a * a2, on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        w = {}
        ax, pe, a1, a2, s1, s2, am = v('m_axis'), v('m_perp'), n('m_a1'), n('m_a2'), n('m_s1'), n('m_s2'), n('m_axial_mass')

        def cd():
            return dot(ax, t.vb - t.va) + a2 * t.wb - a1 * t.wa
        on = bl('m_enable_motor')
        mx = dt * n('m_max_motor_force')
        new, imp = clamped(n('m_motor_impulse'), am * (n('m_motor_speed') - cd()), -mx, mx)
        w['self.m_motor_impulse'] = ite(on, new, n('m_motor_impulse'))
        t.apply(imp * ax, imp * a1, imp * a2, on)
        on = bl('m_enable_limit')
        new, imp = clamped(n('m_lower_impulse'), -am * (cd() + smax(n('m_translation') - n('m_lower_translation'), 0) * inv_dt), k(0), None)
        w['self.m_lower_impulse'] = ite(on, new, n('m_lower_impulse'))
        t.apply(imp * ax, imp * a1, imp * a2, on)
        new, imp = clamped(n('m_upper_impulse'), -am * (-cd() + smax(n('m_upper_translation') - n('m_translation'), 0) * inv_dt), k(0), None)
        w['self.m_upper_impulse'] = ite(on, new, n('m_upper_impulse'))
        t.apply(-imp * ax, -imp * a1, -imp * a2, on)
        df = solve22(self22('m_k'), -V(dot(pe, t.vb - t.va) + s2 * t.wb - s1 * t.wa, t.wb - t.wa))
        w['self.m_impulse'] = v('m_impulse') + df
        t.apply(df.x * pe, df.x * s1 + df.y, df.x * s2 + df.y)
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        ra, rb = x.arms()
        d = t.vb + rb - t.va - ra
        qa = rot(t.wa)
        ax, pe = mulq(qa, v('m_local_xaxis_a')), mulq(qa, v('m_local_yaxis_a'))
        a1, a2, s1, s2 = cross(d + ra, ax), cross(rb, ax), cross(d + ra, pe), cross(rb, pe)
        c1 = V(dot(pe, d), t.wb - t.wa - n('m_reference_angle'))
        tr, lo, up = dot(ax, d), n('m_lower_translation'), n('m_upper_translation')
        on = bl('m_enable_limit')
        eqc, loc, upc = sabs(up - lo) < 2 * SLOP, tr <= lo, tr >= up
        active = on & (eqc | loc | upc)
        c2 = ite(eqc, tr, ite(loc, smin(tr - lo, 0), smax(tr - up, 0)))
        le0 = sabs(c1.x)
        lerr = ite(active, ite(eqc, smax(le0, sabs(tr)), ite(loc, smax(le0, lo - tr), smax(le0, tr - up))), le0)
        k11, k12, k13 = t.ma + t.mb + t.ia * s1 * s1 + t.ib * s2 * s2, t.ia * s1 + t.ib * s2, t.ia * s1 * a1 + t.ib * s2 * a2
        k22 = t.ia + t.ib
        k22 = ite(k22.eq(0), 1, k22)
        k23, k33 = t.ia * a1 + t.ib * a2, t.ma + t.mb + t.ia * a1 * a1 + t.ib * a2 * a2
        i3 = solve33((k11, k12, k13), (k12, k22, k23), (k13, k23, k33), (-c1.x, -c1.y, -c2))
        i2 = solve22((k11, k12, k12, k22), -c1)
        ix, iy, iz = ite(active, i3[0], i2.x), ite(active, i3[1], i2.y), ite(active, i3[2], 0)
        t.apply(ix * pe + iz * ax, ix * s1 + iy + iz * a1, ix * s2 + iy + iz * a2)
        return x.out(), (lerr <= SLOP) & (sabs(c1.y) <= ASLOP)


class Distance:
    name, typ = 'distance', 'Distance'

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        d = x.cb + rb - x.ca - ra
        ln = length(d)
        far = ln > SLOP
        u = ite(far, (k(1) / ln) * d, V(0, 0))
        cra, crb = cross(ra, u), cross(rb, u)
        im = t.ma + t.ia * cra * cra + t.mb + t.ib * crb * crb
        spring = (n('m_stiffness') > 0) & (n('m_min_length') < n('m_max_length'))
        g, b = soft(ln - n('m_length'), dt, n('m_stiffness'), n('m_damping'))
        mass = inv_or0(im)
        w = x.cached()
        w.update({'self.m_r_a': ra, 'self.m_r_b': rb, 'self.m_u': u, 'self.m_current_length': ln, 'self.m_mass': mass,
                  'self.m_gamma': zero_when(~spring, g), 'self.m_bias': zero_when(~spring, b), 'self.m_soft_mass': ite(spring, inv_or0(im + g), mass)})
        acc = {f: zero_when(~far, n(f)) for f in ('m_impulse', 'm_lower_impulse', 'm_upper_impulse')}
        for f in acc:
            w['self.' + f] = ite(warm, ratio * acc[f], acc[f] if f != 'm_impulse' else k(0))
        p = ratio * (acc['m_impulse'] + acc['m_lower_impulse'] - acc['m_upper_impulse'])
        t.at(p * u, ra, rb, on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        w = {}
        ra, rb, u = v('m_r_a'), v('m_r_b'), v('m_u')

        def cd(): return dot(u, t.cdot(ra, rb))
        range_ = n('m_min_length') < n('m_max_length')
        spring = range_ & (n('m_stiffness') > 0)
        rigid = ~range_
        # spring
        imp = -n('m_soft_mass') * (cd() + n('m_bias') + n('m_gamma') * n('m_impulse'))
        hard = -n('m_mass') * cd()
        i1 = ite(spring, imp, ite(rigid, hard, 0))
        w['self.m_impulse'] = n('m_impulse') + i1
        t.at(i1 * u, ra, rb, on=spring | rigid)
        new, imp = clamped(n('m_lower_impulse'), -n('m_mass') * (cd() + smax(0, n('m_current_length') - n('m_min_length')) * inv_dt), k(0), None)
        w['self.m_lower_impulse'] = ite(range_, new, n('m_lower_impulse'))
        t.at(imp * u, ra, rb, on=range_)
        new, imp = clamped(n('m_upper_impulse'), -n('m_mass') * (-cd() + smax(0, n('m_max_length') - n('m_current_length')) * inv_dt), k(0), None)
        w['self.m_upper_impulse'] = ite(range_, new, n('m_upper_impulse'))
        t.at(-imp * u, ra, rb, on=range_)
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        ra, rb = x.arms()
        d = t.vb + rb - t.va - ra
        ln0 = length(d)
        tiny = ln0 < f32(1.1920929e-07)
        ln = ite(tiny, 0, ln0)
        u = ite(tiny, d, (k(1) / ln0) * d)
        lo, hi = n('m_min_length'), n('m_max_length')
        c = ite(lo.eq(hi) | (ln < lo), ln - lo, ln - hi)
        act = lo.eq(hi) | (ln < lo) | (hi < ln)
        t.at(-n('m_mass') * c * u, ra, rb, on=act)
        return x.out(), ~act | (sabs(c) < SLOP)


class Weld:
    name, typ = 'weld', 'Weld'

    @staticmethod
    def K(t, ra, rb):
        kxx, kxy, _, kyy = K22(t.ma, t.mb, t.ia, t.ib, ra, rb)
        ezx, ezy, ezz = -(ra.y * t.ia) - rb.y * t.ib, ra.x * t.ia + rb.x * t.ib, t.ia + t.ib
        return (kxx, kxy, ezx), (kxy, kyy, ezy), (ezx, ezy, ezz)

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        ex, ey, ez = self.K(t, ra, rb)
        w = x.cached()
        w.update({'self.m_r_a': ra, 'self.m_r_b': rb})
        spring = n('m_stiffness') > 0
        im = t.ia + t.ib
        g, b = soft(x.ab - x.aa - n('m_reference_angle'), dt, n('m_stiffness'), n('m_damping'))
        w['self.m_gamma'], w['self.m_bias'] = zero_when(~spring, g), zero_when(~spring, b)
        two = spring | im.eq(0)
        i22 = inverse22((ex[0], ex[1], ey[0], ey[1]))
        det = inv0(dot3(ex, cross3(ey, ez)))
        a11, a12, a13, a22, a23, a33 = ex[0], ey[0], ez[0], ey[1], ez[1], ez[2]
        s = {'ex.x': det * (a22 * a33 - a23 * a23), 'ex.y': det * (a13 * a23 - a12 * a33), 'ex.z': det * (a12 * a23 - a13 * a22),
             'ey.y': det * (a11 * a33 - a13 * a13), 'ey.z': det * (a13 * a12 - a11 * a23), 'ez.z': det * (a11 * a22 - a12 * a12)}
        s['ey.x'], s['ez.x'], s['ez.y'] = s['ex.y'], s['ex.z'], s['ey.z']
        t22 = {'ex.x': i22[0], 'ex.y': i22[1], 'ey.x': i22[2], 'ey.y': i22[3]}
        for f in s:
            w['self.m_mass.' + f] = ite(two, t22.get(f, k(0)), s[f])
        w['self.m_mass.ez.z'] = ite(spring, inv_or0(im + g), ite(two, 0, s['ez.z']))
        imp = (ratio * n('m_impulse.x'), ratio * n('m_impulse.y'), ratio * n('m_impulse.z'))
        for f, y in zip('xyz', imp):
            w['self.m_impulse.' + f] = zero_when(~warm, y)
        t.at(V(imp[0], imp[1]), ra, rb, imp[2], on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        ra, rb = v('m_r_a'), v('m_r_b')
        spring = n('m_stiffness') > 0
        M = {a + b: n('m_mass.%s.%s' % (a, b)) for a in ('ex', 'ey', 'ez') for b in 'xyz'}
        # soft angular part first
        i2 = -M['ezz'] * (t.wb - t.wa + n('m_bias') + n('m_gamma') * n('m_impulse.z'))
        t.spin(i2, on=spring)
        cd, cw = t.cdot(ra, rb), t.wb - t.wa
        soft1 = -V(M['exx'] * cd.x + M['eyx'] * cd.y, M['exy'] * cd.x + M['eyy'] * cd.y)
        rig = [-(M['ex' + f] * cd.x + M['ey' + f] * cd.y + M['ez' + f] * cw) for f in 'xyz']
        p = ite(spring, soft1, V(rig[0], rig[1]))
        tq = ite(spring, 0, rig[2])
        t.at(p, ra, rb, tq)
        w = {'self.m_impulse.x': n('m_impulse.x') + p.x, 'self.m_impulse.y': n('m_impulse.y') + p.y, 'self.m_impulse.z': n('m_impulse.z') + ite(spring, i2, rig[2])}
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        ra, rb = x.arms()
        ex, ey, ez = self.K(t, ra, rb)
        spring = n('m_stiffness') > 0
        c1, c2 = t.vb + rb - t.va - ra, t.wb - t.wa - n('m_reference_angle')
        i2 = -solve22((ex[0], ex[1], ey[0], ey[1]), c1)
        i3 = [-y for y in solve33(ex, ey, ez, (c1.x, c1.y, c2))]
        full = ~spring & (ez[2] > 0)
        t.at(ite(full, V(i3[0], i3[1]), i2), ra, rb, ite(full, i3[2], 0))
        return x.out(), (length(c1) <= SLOP) & (ite(spring, 0, sabs(c2)) <= ASLOP)


class Wheel:
    name, typ = 'wheel', 'Wheel'

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        d = x.cb + rb - x.ca - ra
        ax, ay = mulq(x.qa, v('m_local_xaxis_a')), mulq(x.qa, v('m_local_yaxis_a'))
        sax, sbx, say, sby = cross(d + ra, ax), cross(rb, ax), cross(d + ra, ay), cross(rb, ay)
        im = t.ma + t.mb + t.ia * sax * sax + t.ib * sbx * sbx
        spring = (n('m_stiffness') > 0) & (im > 0)
        h = dt
        g = invpos(h * (n('m_damping') + h * n('m_stiffness')))
        w = x.cached()
        lim, mot = bl('m_enable_limit'), bl('m_enable_motor')
        w.update({'self.m_ax': ax, 'self.m_ay': ay, 'self.m_s_ax': sax, 'self.m_s_bx': sbx, 'self.m_s_ay': say, 'self.m_s_by': sby,
                  'self.m_mass': invpos(t.ma + t.mb + t.ia * say * say + t.ib * sby * sby), 'self.m_axial_mass': ite(im > 0, k(1) / im, 0),
                  'self.m_gamma': zero_when(~spring, g), 'self.m_bias': zero_when(~spring, dot(d, ax) * h * n('m_stiffness') * g),
                  'self.m_spring_mass': zero_when(~spring, invpos(im + g)), 'self.m_translation': ite(lim, dot(ax, d), n('m_translation')),
                  'self.m_motor_mass': zero_when(~mot, invpos(t.ia + t.ib))})
        im_, sp, mo = ratio * n('m_impulse'), ratio * zero_when(~spring, n('m_spring_impulse')), ratio * zero_when(~mot, n('m_motor_impulse'))
        lo, up = zero_when(~lim, n('m_lower_impulse')), zero_when(~lim, n('m_upper_impulse'))
        for f, y in (('m_impulse', im_), ('m_spring_impulse', sp), ('m_motor_impulse', mo), ('m_lower_impulse', lo), ('m_upper_impulse', up)):
            w['self.' + f] = zero_when(~warm, y)
        a = sp + lo - up
        t.apply(im_ * ay + a * ax, im_ * say + a * sax + mo, im_ * sby + a * sbx + mo, on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        w = {}
        ax, ay, sax, sbx, say, sby = v('m_ax'), v('m_ay'), n('m_s_ax'), n('m_s_bx'), n('m_s_ay'), n('m_s_by')

        def cd(): return dot(ax, t.vb - t.va) + sbx * t.wb - sax * t.wa
        imp = -n('m_spring_mass') * (cd() + n('m_bias') + n('m_gamma') * n('m_spring_impulse'))
        w['self.m_spring_impulse'] = n('m_spring_impulse') + imp
        t.apply(imp * ax, imp * sax, imp * sbx)
        mx = dt * n('m_max_motor_torque')
        new, imp = clamped(n('m_motor_impulse'), -n('m_motor_mass') * (t.wb - t.wa - n('m_motor_speed')), -mx, mx)
        w['self.m_motor_impulse'] = new
        t.spin(imp)
        on, am = bl('m_enable_limit'), n('m_axial_mass')
        new, imp = clamped(n('m_lower_impulse'), -am * (cd() + smax(n('m_translation') - n('m_lower_translation'), 0) * inv_dt), k(0), None)
        w['self.m_lower_impulse'] = ite(on, new, n('m_lower_impulse'))
        t.apply(imp * ax, imp * sax, imp * sbx, on)
        new, imp = clamped(n('m_upper_impulse'), -am * (-cd() + smax(n('m_upper_translation') - n('m_translation'), 0) * inv_dt), k(0), None)
        w['self.m_upper_impulse'] = ite(on, new, n('m_upper_impulse'))
        t.apply(-imp * ax, -imp * sax, -imp * sbx, on)
        imp = -n('m_mass') * (dot(ay, t.vb - t.va) + sby * t.wb - say * t.wa)
        w['self.m_impulse'] = n('m_impulse') + imp
        t.apply(imp * ay, imp * say, imp * sby)
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        on = bl('m_enable_limit')
        ra, rb = x.arms()
        d = t.vb - t.va + rb - ra
        ax = mulq(rot(t.wa), v('m_local_xaxis_a'))
        sax, sbx = cross(d + ra, v('m_ax')), cross(rb, v('m_ax'))
        tr, lo, up = dot(ax, d), n('m_lower_translation'), n('m_upper_translation')
        c = ite(sabs(up - lo) < 2 * SLOP, tr, ite(tr <= lo, smin(tr - lo, 0), ite(tr >= up, smax(tr - up, 0), 0)))
        act = on & ~c.eq(0)
        im = t.ma + t.mb + t.ia * sax * sax + t.ib * sbx * sbx
        imp = ite(im.eq(0), 0, -c / im)
        t.apply(imp * ax, imp * sax, imp * sbx, act)
        err = ite(act, sabs(c), 0)
        ra, rb = x.arms()
        d = t.vb - t.va + rb - ra
        ay = mulq(rot(t.wa), v('m_local_yaxis_a'))
        say, sby = cross(d + ra, ay), cross(rb, ay)
        c = dot(d, ay)
        im = t.ma + t.mb + t.ia * n('m_s_ay') * n('m_s_ay') + t.ib * n('m_s_by') * n('m_s_by')
        imp = ite(im.eq(0), 0, -c / im)
        t.apply(imp * ay, imp * say, imp * sby)
        return x.out(), smax(err, sabs(c)) <= SLOP


class Friction:
    name, typ = 'friction', 'Friction'
    motor = False

    def arms(self, x):
        return mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = self.arms(x)
        w = x.cached()
        w.update({'self.m_r_a': ra, 'self.m_r_b': rb, 'self.m_linear_mass': mat22(inverse22(K22(t.ma, t.mb, t.ia, t.ib, ra, rb))), 'self.m_angular_mass': invpos(t.ia + t.ib)})
        if self.motor:
            w.update({'self.m_linear_error': x.cb + rb - x.ca - ra, 'self.m_angular_error': x.ab - x.aa - n('m_angular_offset')})
        li, an = ratio * v('m_linear_impulse'), ratio * n('m_angular_impulse')
        w.update({'self.m_linear_impulse': zero_when(~warm, li), 'self.m_angular_impulse': zero_when(~warm, an)})
        t.at(li, ra, rb, an, on=warm)
        w.update(x.out())
        return w

    def velocity(self):
        x = Vel()
        t = x.two
        w = {}
        mx = dt * n('m_max_torque')
        ea = inv_dt * n('m_correction_factor') * n('m_angular_error') if self.motor else k(0)
        el = (inv_dt * n('m_correction_factor')) * v('m_linear_error') if self.motor else V(0, 0)
        new, imp = clamped(n('m_angular_impulse'), -n('m_angular_mass') * (t.wb - t.wa + ea), -mx, mx)
        w['self.m_angular_impulse'] = new
        t.spin(imp)
        ra, rb = v('m_r_a'), v('m_r_b')
        tot = v('m_linear_impulse') - mulm(self22('m_linear_mass'), t.cdot(ra, rb) + el)
        mx = dt * n('m_max_force')
        over = dot(tot, tot) > mx * mx
        ln = length(tot)
        tiny = ln < f32(1.1920929e-07)
        tot2 = ite(over, ite(tiny, mx * tot, (mx / ln) * tot), tot)
        w['self.m_linear_impulse'] = tot2
        t.at(tot2 - v('m_linear_impulse'), ra, rb)
        w.update(x.out())
        return w

    def position(self):
        return {}, S(TRUE)


class Motor(Friction):
    name, typ = 'motor', 'Motor'
    motor = True

    def arms(self, x):
        return mulq(x.qa, v('m_linear_offset') - x.A.lc), mulq(x.qb, -x.B.lc)


class Mouse:
    name, typ = 'mouse', 'Mouse'

    def init(self):
        x = Ctx()
        t = x.two
        rb = mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        g = inv0(dt * (n('m_damping') + dt * n('m_stiffness')))
        beta = dt * n('m_stiffness') * g
        mb, ib = t.mb, t.ib
        kk = (mb + ib * rb.y * rb.y + g, -(ib * rb.x * rb.y), -(ib * rb.x * rb.y), mb + ib * rb.x * rb.x + g)
        im = ratio * v('m_impulse')
        wb = t.wb * 0.98
        return {'self.m_index_b': x.ixb, 'self.m_local_center_b': x.B.lc, 'self.m_inv_mass_b': mb, 'self.m_inv_ib': ib,
                'self.m_gamma': g, 'self.m_beta': beta, 'self.m_r_b': rb, 'self.m_mass': mat22(inverse22(kk)), 'self.m_c': beta * (x.cb + rb - v('m_target_a')),
                'self.m_impulse': zero_when(~warm, im), x.ub.at('v'): ite(warm, t.vb + mb * im, t.vb), x.ub.at('w'): ite(warm, wb + ib * cross(rb, im), wb)}

    def velocity(self):
        ub = idx(vel, n('m_index_b'))
        vb, wb, rb, mb, ib = ub.vec('v'), ub.num('w'), v('m_r_b'), n('m_inv_mass_b'), n('m_inv_ib')
        old = v('m_impulse')
        tot = old + mulm(self22('m_mass'), -(vb + crosssv(wb, rb) + v('m_c') + n('m_gamma') * old))
        mx = dt * n('m_max_force')
        tot = ite(dot(tot, tot) > mx * mx, (mx / length(tot)) * tot, tot)
        p = tot - old
        return {'self.m_impulse': tot, ub.at('v'): vb + mb * p, ub.at('w'): wb + ib * cross(rb, p)}

    def position(self):
        return {}, S(TRUE)


class Pulley:
    name, typ = 'pulley', 'Pulley'

    @staticmethod
    def unit(d):
        ln = length(d)
        return ite(ln > 10 * SLOP, (k(1) / ln) * d, V(0, 0)), ln

    def init(self):
        x = Ctx()
        t = x.two
        ra, rb = mulq(x.qa, v('m_local_anchor_a') - x.A.lc), mulq(x.qb, v('m_local_anchor_b') - x.B.lc)
        ua, _ = self.unit(x.ca + ra - v('m_ground_anchor_a'))
        ub, _ = self.unit(x.cb + rb - v('m_ground_anchor_b'))
        ka, kb = t.ma + t.ia * cross(ra, ua) * cross(ra, ua), t.mb + t.ib * cross(rb, ub) * cross(rb, ub)
        r_ = n('m_ratio')
        w = x.cached()
        im = ratio * n('m_impulse')
        w.update({'self.m_r_a': ra, 'self.m_r_b': rb, 'self.m_u_a': ua, 'self.m_u_b': ub, 'self.m_mass': invpos(ka + r_ * r_ * kb), 'self.m_impulse': zero_when(~warm, im)})
        self.push(t, -im * ua, -(r_ * im) * ub, ra, rb, warm)
        w.update(x.out())
        return w

    @staticmethod
    def push(t, pa, pb, ra, rb, on=None):
        va, wa, vb, wb = t.va + t.ma * pa, t.wa + t.ia * cross(ra, pa), t.vb + t.mb * pb, t.wb + t.ib * cross(rb, pb)
        if on is not None:
            va, wa, vb, wb = ite(on, va, t.va), ite(on, wa, t.wa), ite(on, vb, t.vb), ite(on, wb, t.wb)
        t.va, t.wa, t.vb, t.wb = va, wa, vb, wb

    def velocity(self):
        x = Vel()
        t = x.two
        ra, rb, ua, ub, r_ = v('m_r_a'), v('m_r_b'), v('m_u_a'), v('m_u_b'), n('m_ratio')
        cd = -dot(ua, t.va + crosssv(t.wa, ra)) - r_ * dot(ub, t.vb + crosssv(t.wb, rb))
        imp = -n('m_mass') * cd
        self.push(t, -imp * ua, -(r_ * imp) * ub, ra, rb)
        w = {'self.m_impulse': n('m_impulse') + imp}
        w.update(x.out())
        return w

    def position(self):
        x = Pos()
        t = x.two
        ra, rb = x.arms()
        ua, la = self.unit(t.va + ra - v('m_ground_anchor_a'))
        ub, lb = self.unit(t.vb + rb - v('m_ground_anchor_b'))
        r_ = n('m_ratio')
        mass = invpos(t.ma + t.ia * cross(ra, ua) * cross(ra, ua) + r_ * r_ * (t.mb + t.ib * cross(rb, ub) * cross(rb, ub)))
        c = n('m_constant') - la - r_ * lb
        imp = -mass * c
        self.push(t, -imp * ua, -(r_ * imp) * ub, ra, rb)
        return x.out(), sabs(c) < SLOP


class Gear:
    name, typ = 'gear', 'Gear'

    def parts(self, q, lc, m, i):
        """jacobian and effective inverse mass; q,lc,m,i keyed by body letter."""
        r_ = n('m_ratio')
        out = {}
        reva, revb = me.is_(8, 11, 'm_type_a'), me.is_(8, 11, 'm_type_b')
        u = mulq(q['c'], v('m_local_axis_c'))
        rc, ra = mulq(q['c'], v('m_local_anchor_c') - lc['c']), mulq(q['a'], v('m_local_anchor_a') - lc['a'])
        jac, jc, ja = ite(reva, V(0, 0), u), ite(reva, 1, cross(rc, u)), ite(reva, 1, cross(ra, u))
        mass = ite(reva, i['a'] + i['c'], m['c'] + m['a'] + i['c'] * cross(rc, u) * cross(rc, u) + i['a'] * cross(ra, u) * cross(ra, u))
        u2 = mulq(q['d'], v('m_local_axis_d'))
        rd, rb = mulq(q['d'], v('m_local_anchor_d') - lc['d']), mulq(q['b'], v('m_local_anchor_b') - lc['b'])
        jbd, jd, jb = ite(revb, V(0, 0), r_ * u2), ite(revb, r_, r_ * cross(rd, u2)), ite(revb, r_, r_ * cross(rb, u2))
        mass = mass + ite(revb, r_ * r_ * (i['b'] + i['d']), r_ * r_ * (m['d'] + m['b']) + i['d'] * (r_ * cross(rd, u2)) * (r_ * cross(rd, u2)) + i['b'] * (r_ * cross(rb, u2)) * (r_ * cross(rb, u2)))
        return jac, jbd, ja, jb, jc, jd, mass, (reva, revb, ra, rb)

    @staticmethod
    def push(vv, ww, m, i, imp, jac, jbd, ja, jb, jc, jd, on=None):
        for b, s, jv, jw in (('a', 1, jac, ja), ('b', 1, jbd, jb), ('c', -1, jac, jc), ('d', -1, jbd, jd)):
            nv, nw = vv[b] + (s * (m[b] * imp)) * jv, ww[b] + s * (i[b] * imp * jw)
            vv[b], ww[b] = (nv, nw) if on is None else (ite(on, nv, vv[b]), ite(on, nw, ww[b]))

    def init(self):
        bodies = {'a': bodyA, 'b': bodyB, 'c': me.at('m_body_c'), 'd': me.at('m_body_d')}
        Bs = {x: Body(o) for x, o in bodies.items()}
        ix = {x: o.num('m_island_index') for x, o in bodies.items()}
        q = {x: rot(idx(pos, ix[x]).num('a')) for x in bodies}
        u = {x: idx(vel, ix[x]) for x in bodies}
        vv, ww = {x: u[x].vec('v') for x in u}, {x: u[x].num('w') for x in u}
        lc, m, i = {x: b.lc for x, b in Bs.items()}, {x: b.invm for x, b in Bs.items()}, {x: b.invi for x, b in Bs.items()}
        jac, jbd, ja, jb, jc, jd, mass, _ = self.parts(q, lc, m, i)
        w = {}
        for x in 'abcd':
            w.update({'self.m_index_' + x: ix[x], 'self.m_lc_' + x: lc[x], 'self.m_m_' + x: m[x], 'self.m_i_' + x: i[x]})
        w.update({'self.m_jv_ac': jac, 'self.m_jv_bd': jbd, 'self.m_jw_a': ja, 'self.m_jw_b': jb, 'self.m_jw_c': jc, 'self.m_jw_d': jd,
                  'self.m_mass': ite(mass > 0, k(1) / mass, 0), 'self.m_impulse': zero_when(~warm, n('m_impulse'))})
        self.push(vv, ww, m, i, n('m_impulse'), jac, jbd, ja, jb, jc, jd, on=warm)
        for x in 'abcd':
            w[u[x].at('v')], w[u[x].at('w')] = vv[x], ww[x]
        return w

    def velocity(self):
        u = {x: idx(vel, n('m_index_' + x)) for x in 'abcd'}
        vv, ww = {x: u[x].vec('v') for x in u}, {x: u[x].num('w') for x in u}
        m, i = {x: n('m_m_' + x) for x in u}, {x: n('m_i_' + x) for x in u}
        J_ = v('m_jv_ac'), v('m_jv_bd'), n('m_jw_a'), n('m_jw_b'), n('m_jw_c'), n('m_jw_d')
        cd = dot(J_[0], vv['a'] - vv['c']) + dot(J_[1], vv['b'] - vv['d']) + J_[2] * ww['a'] - J_[4] * ww['c'] + J_[3] * ww['b'] - J_[5] * ww['d']
        imp = -n('m_mass') * cd
        self.push(vv, ww, m, i, imp, *J_)
        w = {'self.m_impulse': n('m_impulse') + imp}
        for x in 'abcd':
            w[u[x].at('v')], w[u[x].at('w')] = vv[x], ww[x]
        return w

    def position(self):
        u = {x: idx(pos, n('m_index_' + x)) for x in 'abcd'}
        cc, aa = {x: u[x].vec('c') for x in u}, {x: u[x].num('a') for x in u}
        q = {x: rot(aa[x]) for x in u}
        lc, m, i = {x: v('m_lc_' + x) for x in u}, {x: n('m_m_' + x) for x in u}, {x: n('m_i_' + x) for x in u}
        jac, jbd, ja, jb, jc, jd, mass, (reva, revb, ra, rb) = self.parts(q, lc, m, i)
        ca = ite(reva, aa['a'] - aa['c'] - n('m_reference_angle_a'), dot(mulqT(q['c'], ra + (cc['a'] - cc['c'])) - (v('m_local_anchor_c') - lc['c']), v('m_local_axis_c')))
        cb = ite(revb, aa['b'] - aa['d'] - n('m_reference_angle_b'), dot(mulqT(q['d'], rb + (cc['b'] - cc['d'])) - (v('m_local_anchor_d') - lc['d']), v('m_local_axis_d')))
        c = ca + n('m_ratio') * cb - n('m_constant')
        imp = ite(mass > 0, -c / mass, 0)
        self.push(cc, aa, m, i, imp, jac, jbd, ja, jb, jc, jd)
        w = {}
        for x in 'abcd':
            w[u[x].at('c')], w[u[x].at('a')] = cc[x], aa[x]
        return w, S(TRUE)


ALL = [Revolute, Prismatic, Distance, Weld, Wheel, Friction, Motor, Mouse, Pulley, Gear]


def stage(c, P, jt, meth, names):
    r = summarise(c, P, J % (jt.name, jt.name, meth), names=names)
    bad = [x for x, st in r.flat(kinds=('panic',)) if 'panicking::' in x.name and x.guard != FALSE]
    rule = {'i': 'setup'}.get(meth[0]) or ('velocity' if 'velocity' in meth else 'position')
    c.ob(rule, '%s %s fails no assertion' % (jt.name, rule), not bad, ['%s when %s' % (x.name, E.show(x.guard, 4)) for x in bad])
    return r


def check_joint(c, P, jt):
    j = jt()
    nm = jt.name
    r = stage(c, P, jt, 'init_velocity_constraints', ['self', 'data', 'positions', 'velocities'])
    expect_changes(c, 'setup', nm + ' setup', r, j.init())
    r = stage(c, P, jt, 'solve_velocity_constraints', ['self', 'data', 'velocities'])
    expect_changes(c, 'velocity', nm + ' velocity', r, j.velocity())
    r = stage(c, P, jt, 'solve_position_constraints', ['self', 'data', 'positions'])
    w, ret = j.position()
    expect_changes(c, 'position', nm + ' position', r, w)
    c.ob('converged', nm + ' converged', same(r.ret, ret), 'expected %s, code returns %s' % (E.show(ret.n, 5), E.show(r.ret, 5)))


def stage_rules(c):
    c.rule('setup', 'preparing the velocity solve caches exactly the constraint geometry, effective mass, softness and bias, resets or scales the accumulated impulses, applies exactly the accumulated impulses when warm starting, and changes nothing else')
    c.rule('velocity', 'one velocity iteration changes the two bodies\' velocities by exactly the (clamped) constraint impulse, accumulates exactly that impulse, and changes nothing else')
    c.rule('position', 'one position iteration moves the bodies by exactly the constraint correction and changes nothing else')
    c.rule('converged', 'the position stage reports convergence exactly when the remaining error is within the slop')
