"""Contact constraints: what the contact solver's stages must compute for every contact.

The loop over the contacts is summarised by one generic iteration (arbitrary state before, specified state after, counter from 0
to the number of contacts); the loop over the one or two points of a contact is unrolled."""
from .jointlib import Two, idx, SLOP
from .bodylib import Body
from ..spec import *

CS = 'private::dynamics::b2_contact_solver_private::'
SHAPE_R = ('base', 'm_radius')
solver = sym('s')


def run(c, P, fn, names, n, fix=None, **kw):
    fx = {'point_count': nd(k(n))}
    fx.update(fix or {})
    return summarise(c, P, CS + fn, names=names, unroll=3, fix=fx, **kw)


def block_flag(r):
    """the global switch selecting the two-point block solver."""
    return S(E.boolsym(term(('app', 'atomic', (term(('ptr', ('H', term(('sym', ('const', 'static b2_contact::G_BLOCK_SOLVE')))), ())),)))))


class VC:
    """velocity constraint of one contact."""

    def __init__(self, o, npts):
        self.o, self.npts = o, npts
        self.ia, self.ib = o.num('index_a'), o.num('index_b')
        self.ma, self.mb, self.Ia, self.Ib = (o.num(x) for x in ('inv_mass_a', 'inv_mass_b', 'inv_ia', 'inv_ib'))
        self.normal = o.vec('normal')
        self.tangent = crossvs(self.normal, k(1))
        self.pts = [o.at('points', ('i', nd(k(j)))) for j in range(npts)]

    def two(self, vel):
        self.ua, self.ub = idx(vel, self.ia), idx(vel, self.ib)
        return Two(self.ua.vec('v'), self.ua.num('w'), self.ub.vec('v'), self.ub.num('w'), self.ma, self.mb, self.Ia, self.Ib)

    def out(self, t):
        return {self.ua.at('v'): t.va, self.ua.at('w'): t.wa, self.ub.at('v'): t.vb, self.ub.at('w'): t.wb}


def each(c, rule, name, r, seq, nloops=1, fails=None):
    ls = loops(r)
    if not c.ob(rule, name + ' is one pass', len(ls) == nloops, '%d loops' % len(ls)):
        return None
    stated = [x for x, _ in r.flat(kinds=('panic',)) if 'panicking::' in x.name]
    e = Each(c, rule, name, ls[0], seq.num('len'), r)
    if not e.ok:
        return None
    bad = fails(e) if fails is not None else S(FALSE)
    stated = [x for x in stated if E.AND(x.guard, (~bad).n) != FALSE]
    c.ob(rule, name + ' fails no assertion', not stated, '; '.join('line %s when %s' % (x.line, E.show(x.guard, 4)[:200]) for x in stated))
    return e


def warm_start(c, P, rule):
    for n in (1, 2):
        r = run(c, P, 'warm_start', ['s', 'vel'], n)
        e = each(c, rule, 'warm start, %d point(s)' % n, r, solver.at('m_velocity_constraints'))
        if e is None:
            continue
        e.frame(r)
        vc = VC(idx(e.cur(solver.at('m_velocity_constraints')), e.i), n)
        t = vc.two(e.cur(sym('vel')))
        for p in vc.pts:
            t.at(p.num('normal_impulse') * vc.normal + p.num('tangent_impulse') * vc.tangent, p.vec('r_a'), p.vec('r_b'))
        e.expect(vc.out(t))


def store_impulses(c, P, rule):
    for n in (1, 2):
        r = run(c, P, 'store_impulses', ['s', 'contacts'], n)
        e = each(c, rule, 'store impulses, %d point(s)' % n, r, solver.at('m_velocity_constraints'))
        if e is None:
            continue
        e.frame(r)
        o = idx(e.cur(solver.at('m_velocity_constraints')), e.i)
        m = idx(sym('contacts'), o.num('contact_index')).at('base', 'm_manifold')
        want = {}
        for j in range(n):
            q = ('i', nd(k(j)))
            for f in ('normal_impulse', 'tangent_impulse'):
                want[m.at('points', q, f)] = o.num('points', q, f)
        e.expect(want)


def create(c, P, rule):
    """the solver's per-contact records."""
    for n in (1, 2):
        name = 'contact record, %d point(s)' % n
        r = run(c, P, 'new', ['def', 'contacts'], n)
        e = each(c, rule, name, r, sym('contacts'))
        if e is None:
            continue
        st = sym('def', ).at('step')
        c.ob(rule, name + ' step', same(r.value(r.ret, ('m_step',)), st), E.show(r.value(r.ret, ('m_step',)), 3))
        for f in ('m_velocity_constraints', 'm_position_constraints'):
            mu = e.local(f)
            ok = mu is not None and e.raw(r.value(r.ret, (f,))) == e.raw(mu[1])
            c.ob(rule, '%s %s returned' % (name, f), ok, 'the records built in the loop are not what is returned')
            if not ok:
                return
        ct = idx(sym('contacts'), e.i).at('base')
        fa, fb = ct.at('m_fixture_a'), ct.at('m_fixture_b')
        A, B = Body(fa.at('m_body', ('d', 'Some'), '0')), Body(fb.at('m_body', ('d', 'Some'), '0'))
        m = ct.at('m_manifold')
        warm, ratio = st.bool('warm_starting'), st.num('dt_ratio')
        cnt = k(n)
        z = V(0, 0)
        mz = {'ex': z, 'ey': z}
        vc = {'friction': ct.num('m_friction'), 'restitution': ct.num('m_restitution'), 'threshold': ct.num('m_restitution_threshold'), 'tangent_speed': ct.num('m_tangent_speed'),
              'index_a': A.o.num('m_island_index'), 'index_b': B.o.num('m_island_index'), 'inv_mass_a': A.invm, 'inv_mass_b': B.invm, 'inv_ia': A.invi, 'inv_ib': B.invi,
              'contact_index': e.i, 'point_count': cnt, 'k': mz, 'normal_mass': mz}
        pc = {'index_a': A.o.num('m_island_index'), 'index_b': B.o.num('m_island_index'), 'inv_mass_a': A.invm, 'inv_mass_b': B.invm, 'inv_ia': A.invi, 'inv_ib': B.invi,
              'local_center_a': A.lc, 'local_center_b': B.lc, 'local_normal': m.vec('local_normal'), 'local_point': m.vec('local_point'), 'point_count': cnt,
              'radius_a': shape(fa).num(*SHAPE_R), 'radius_b': shape(fb).num(*SHAPE_R), 'mtype': m.at('manifold_type')}
        for j in range(n):
            q = '[%d]' % j
            mp = m.at('points', ('i', nd(k(j))))
            vc['points.' + q] = {'normal_impulse': ite(warm, ratio * mp.num('normal_impulse'), 0), 'tangent_impulse': ite(warm, ratio * mp.num('tangent_impulse'), 0),
                                 'r_a': z, 'r_b': z, 'normal_mass': k(0), 'tangent_mass': k(0), 'velocity_bias': k(0)}
            pc['local_points.' + q] = mp.vec('local_point')
        got = {}
        want = {}
        for f, spec in (('m_velocity_constraints', vc), ('m_position_constraints', pc)):
            i_, s_, n_ = e.local(f)
            b = e.raw(s_)
            sub = {}
            flatten(b, n_, f, sub)
            sub.pop(f + '.len', None)
            got.update({x.replace('[%s]' % E.show(e.i.n), '[i]'): y for x, y in sub.items()})
            for x, y in spec.items():
                want['%s.[i].%s' % (f, x)] = y
        expect_changes(c, rule, name, r, want, under=S(e.back), got=got)
        for kk, v in e.got().items():
            c.ob(rule, name + ' leaves ' + kk, False, 'changes %s' % kk)


def shape(f):
    return f.at('m_shape', ('d', 'Some'), '0')


def velocity(c, P, rule):
    for n in (1, 2):
        name = 'velocity iteration, %d point(s)' % n
        r = run(c, P, 'solve_velocity_constraints', ['s', 'vel'], n)

        def pulling(e):
            ps = VC(idx(e.cur(solver.at('m_velocity_constraints')), e.i), 2).pts
            return (ps[0].num('normal_impulse') < 0) | (ps[1].num('normal_impulse') < 0)
        e = each(c, rule, name, r, solver.at('m_velocity_constraints'), fails=pulling)
        if e is None:
            continue
        e.frame(r)
        vc = VC(idx(e.cur(solver.at('m_velocity_constraints')), e.i), n)
        t = vc.two(e.cur(sym('vel')))
        want = {}
        o = vc.o
        for p in vc.pts:
            ra, rb, ti = p.vec('r_a'), p.vec('r_b'), p.num('tangent_impulse')
            vt = dot(t.cdot(ra, rb), vc.tangent) - o.num('tangent_speed')
            mx = o.num('friction') * p.num('normal_impulse')
            new = clamp(ti - p.num('tangent_mass') * vt, -mx, mx)
            want[p.at('tangent_impulse')] = new
            t.at((new - ti) * vc.tangent, ra, rb)
        seq = Two(t.va, t.wa, t.vb, t.wb, t.ma, t.mb, t.ia, t.ib)
        ni = [p.num('normal_impulse') for p in vc.pts]
        res = []
        for p in vc.pts:
            ra, rb = p.vec('r_a'), p.vec('r_b')
            vn = dot(seq.cdot(ra, rb), vc.normal)
            new = smax(p.num('normal_impulse') - p.num('normal_mass') * (vn - p.num('velocity_bias')), 0)
            seq.at((new - p.num('normal_impulse')) * vc.normal, ra, rb)
            res.append(new)
        if n == 2:
            blk = block_flag(r)
            p0, p1 = vc.pts
            b = [dot(t.cdot(p.vec('r_a'), p.vec('r_b')), vc.normal) - p.num('velocity_bias') for p in vc.pts]
            K, M = o.at('k'), o.at('normal_mass')
            bx = b[0] - (K.num('ex', 'x') * ni[0] + K.num('ey', 'x') * ni[1])
            by = b[1] - (K.num('ex', 'y') * ni[0] + K.num('ey', 'y') * ni[1])
            x1 = V(-(M.num('ex', 'x') * bx + M.num('ey', 'x') * by), -(M.num('ex', 'y') * bx + M.num('ey', 'y') * by))
            ok1 = (x1.x >= 0) & (x1.y >= 0)
            x2 = -(p0.num('normal_mass') * bx)
            ok2 = (x2 >= 0) & (K.num('ex', 'y') * x2 + by >= 0)
            x3 = -(p1.num('normal_mass') * by)
            ok3 = (x3 >= 0) & (K.num('ey', 'x') * x3 + bx >= 0)
            ok4 = (bx >= 0) & (by >= 0)
            a = V(ni[0], ni[1])
            x = ite(ok1, x1, ite(ok2, V(x2, 0), ite(ok3, V(0, x3), ite(ok4, V(0, 0), a))))
            bt = Two(t.va, t.wa, t.vb, t.wb, t.ma, t.mb, t.ia, t.ib)
            for p, d in ((p0, x.x - a.x), (p1, x.y - a.y)):
                bt.at(d * vc.normal, p.vec('r_a'), p.vec('r_b'))
            res = [ite(blk, x.x, res[0]), ite(blk, x.y, res[1])]
            seq.va, seq.wa, seq.vb, seq.wb = (ite(blk, y, z) for y, z in ((bt.va, seq.va), (bt.wa, seq.wa), (bt.vb, seq.vb), (bt.wb, seq.wb)))
        for p, x in zip(vc.pts, res):
            want[p.at('normal_impulse')] = x
        want.update(vc.out(seq))
        e.expect(want)
        # the only condition demanded of the input: accumulated impulses of the block solver are not negative
        bad = S(FALSE)
        for x, _ in r.flat(kinds=('panic',)):
            if 'index' not in str(x.name) and 'bounds' not in str(x.name):
                bad = bad | S(x.guard)
        neg = (ni[0] < 0) | (ni[1] < 0) if n == 2 else S(FALSE)
        c.ob(rule, name + ' never rejects admissible impulses', (bad & ~neg).n == FALSE, 'panics when %s' % E.show((bad & ~neg).n, 4))


def wm_hook(seen):
    def h(e, fr, st, args, tys, dt, line, fop):
        from ..engine import UNIT
        load = lambda a, t: e.load(st, a) if t is not None and e.P.pointee(t) is not None else a
        seen.append([args[1]] + [load(a, t) for a, t in list(zip(args, tys))[2:]])

        def vec(tag):
            return term(('agg', 'b2_math::B2vec2', None, (('x', E.numapp(tag + '.x')), ('y', E.numapp(tag + '.y')))))
        e.store(st, e.extend(args[0], 'normal'), vec('wm.normal'), fr, line)
        for j in range(2):
            e.store(st, e.extend(e.extend(args[0], 'points'), ('i', E.const(j))), vec('wm.p%d' % j), fr, line)
        return UNIT
    return h


def setup(c, P, rule):
    for n in (1, 2):
        name = 'constraint setup, %d point(s)' % n
        seen = []
        r = run(c, P, 'initialize_velocity_constraints', ['s', 'pos', 'vel', 'contacts'], n, hooks={'b2_collision::B2worldManifold::initialize': wm_hook(seen)})
        e = each(c, rule, name, r, sym('contacts'))
        if e is None:
            continue
        e.frame(r)
        vc = VC(idx(e.cur(solver.at('m_velocity_constraints')), e.i), n)
        pc = idx(e.cur(solver.at('m_position_constraints')), e.i)
        o = vc.o
        t = vc.two(e.cur(sym('vel')))
        ps = e.cur(sym('pos'))
        pa, pb = idx(ps, vc.ia), idx(ps, vc.ib)
        ca, cb, qa, qb = pa.vec('c'), pb.vec('c'), rot(pa.num('a')), rot(pb.num('a'))
        xa, xb = X(ca - mulq(qa, pc.vec('local_center_a')), qa), X(cb - mulq(qb, pc.vec('local_center_b')), qb)
        ma = idx(sym('contacts'), o.num('contact_index')).at('base', 'm_manifold')
        # the world manifold is computed from the contact's manifold, the bodies' current transforms and the shape radii
        ok = bool(seen)
        if ok:
            a = seen[-1]
            ok = a[0] == term(('ptr', ('H', idx(sym('contacts'), o.num('contact_index')).n), ('base', 'm_manifold')))
            for v_, w_ in ((a[1], xa), (a[3], xb)):
                fl = {}
                expand('', w_, fl)
                for kk, x in fl.items():
                    ok = ok and same(r.value(v_, tuple(z for z in kk.split('.') if z)), x)
            ok = ok and same(a[2], pc.num('radius_a')) and same(a[4], pc.num('radius_b'))
        c.ob(rule, name + ' world manifold from current poses', ok, 'the world manifold is not computed from the current poses, radii and this contact\'s manifold')
        N = V(pure_num('wm.normal.x'), pure_num('wm.normal.y'))
        T = crossvs(N, k(1))
        want = {o.at('normal'): N}
        rs = []
        for j, p in enumerate(vc.pts):
            w = V(pure_num('wm.p%d.x' % j), pure_num('wm.p%d.y' % j))
            ra, rb = w - ca, w - cb
            rs.append((ra, rb))
            kn = eff(vc, ra, rb, N)
            kt = eff(vc, ra, rb, T)
            vr = dot(N, t.cdot(ra, rb))
            want[p.at('r_a')], want[p.at('r_b')] = ra, rb
            want[p.at('normal_mass')] = ite(kn > 0, k(1) / kn, 0)
            want[p.at('tangent_mass')] = ite(kt > 0, k(1) / kt, 0)
            want[p.at('velocity_bias')] = ite(vr < -o.num('threshold'), -(o.num('restitution') * vr), 0)
        if n == 2:
            blk = block_flag(r)
            (ra1, rb1), (ra2, rb2) = rs
            k11, k22 = eff(vc, ra1, rb1, N), eff(vc, ra2, rb2, N)
            k12 = vc.ma + vc.mb + vc.Ia * cross(ra1, N) * cross(ra2, N) + vc.Ib * cross(rb1, N) * cross(rb2, N)
            det = k11 * k22 - k12 * k12
            good = blk & (k11 * k11 < 1000 * det)
            K, M = o.at('k'), o.at('normal_mass')
            inv = ite(det.eq(0), det, k(1) / det)
            for f, x, y in (('ex.x', k11, inv * k22), ('ex.y', k12, -(inv * k12)), ('ey.x', k12, -(inv * k12)), ('ey.y', k22, inv * k11)):
                f = f.split('.')
                want[K.at(*f)] = ite(good, x, K.num(*f))
                want[M.at(*f)] = ite(good, y, M.num(*f))
            want[o.at('point_count')] = ite(blk & ~good, 1, o.num('point_count'))
        e.expect(want)


def eff(vc, ra, rb, d):
    a, b = cross(ra, d), cross(rb, d)
    return vc.ma + vc.mb + vc.Ia * a * a + vc.Ib * b * b


MT = 'b2_collision::B2manifoldType'


def position(c, P, rule, toi):
    fn = 'solve_toiposition_constraints' if toi else 'solve_position_constraints'
    names = ['s', 'toi_a', 'toi_b', 'pos'] if toi else ['s', 'pos']
    for kind, n in (('ECircles', 1), ('EFaceA', 1), ('EFaceA', 2), ('EFaceB', 1), ('EFaceB', 2)):
        name = '%s position iteration, %s, %d point(s)' % ('continuous' if toi else 'discrete', kind[1:], n)
        r = run(c, P, fn, names, n, fix={'mtype': term(('agg', MT, kind, ()))})
        e = each(c, rule, name, r, solver.at('m_position_constraints'))
        if e is None:
            continue
        e.frame(r)
        pc = idx(e.cur(solver.at('m_position_constraints')), e.i)
        ia, ib = pc.num('index_a'), pc.num('index_b')
        ps = e.cur(sym('pos'))
        pa, pb = idx(ps, ia), idx(ps, ib)
        m = [pc.num(x) for x in ('inv_mass_a', 'inv_ia', 'inv_mass_b', 'inv_ib')]
        if toi:
            ta, tb = sym('toi_a').num(), sym('toi_b').num()
            am, bm = ia.eq(ta) | ia.eq(tb), ib.eq(ta) | ib.eq(tb)
            m = [ite(am, m[0], 0), ite(am, m[1], 0), ite(bm, m[2], 0), ite(bm, m[3], 0)]
        t = Two(pa.vec('c'), pa.num('a'), pb.vec('c'), pb.num('a'), m[0], m[2], m[1], m[3])
        seps = []
        for j in range(n):
            qa, qb = rot(t.wa), rot(t.wb)
            xa, xb = X(t.va - mulq(qa, pc.vec('local_center_a')), qa), X(t.vb - mulq(qb, pc.vec('local_center_b')), qb)
            lp, pj = pc.vec('local_point'), pc.vec('local_points', ('i', nd(k(j))))
            rad = pc.num('radius_a') + pc.num('radius_b')
            if kind == 'ECircles':
                a, b = mulx(xa, lp), mulx(xb, pc.vec('local_points', ('i', nd(k(0)))))
                d = b - a
                ln = length(d)
                N = ite(ln < f32(1.1920929e-7), d, (k(1) / ln) * d)
                pt = 0.5 * (a + b)
                sep = dot(d, N) - rad
            else:
                x, y = (xa, xb) if kind == 'EFaceA' else (xb, xa)
                N = mulq(x.q, pc.vec('local_normal'))
                pt = mulx(y, pj)
                sep = dot(pt - mulx(x, lp), N) - rad
                if kind == 'EFaceB':
                    N = V(0, 0) - N
            seps.append(sep)
            ra, rb = pt - t.va, pt - t.vb
            C = clamp((f32(0.75) if toi else f32(0.2)) * (sep + SLOP), -f32(0.2), k(0))
            ca, cb = cross(ra, N), cross(rb, N)
            kk = m[0] + m[2] + m[1] * ca * ca + m[3] * cb * cb
            imp = ite(kk > 0, -(C / kk), 0)
            t.at(imp * N, ra, rb)
        e.expect({pa.at('c'): t.va, pa.at('a'): t.wa, pb.at('c'): t.vb, pb.at('a'): t.wb})
        lim = -(k(1.5) if toi else k(3)) * SLOP

        def nxt(s):
            for x in seps:
                s = smin(s, x)
            return s
        f = e.find(init=k(0), next=nxt, under=S(e.back))
        ok = any(same(r.ret, x >= lim) for x in f)
        c.ob(rule, name + ' reports convergence', ok, 'result %s; worst separation tracked: %s' % (E.show(r.ret, 3), bool(f)))
