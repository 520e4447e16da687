"""Bounding boxes, world manifolds, point states and clipping."""
from ..spec import *
from .c26 import EPS
from .c28 import unit, both

C = 'b2_collision::'
BIG = f32(3.402823466e+38)


def ty(n): return term(('agg', 'b2_collision::B2manifoldType', n, ()))
def state(n): return S(term(('agg', 'b2_collision::B2pointState', n, ())))
def at(o, *keys): return o.at(*[('i', nd(k(q))) if isinstance(q, int) else q for q in keys])
def fin(x): return S(E.boolsym(term(('app', 'is_finite', (x.n,)))))


def check(c):
    P = c.P
    c.rule('box', 'the bounding box operation returns or stores exactly its geometric definition and changes nothing else')
    c.rule('manifold', 'specialised to each manifold kind and point count, the stored world manifold, point states and clipped vertices are exactly the specified values')
    s, a, b = sym('self'), sym('a'), sym('b')

    def lo(o): return o.vec('lower_bound')
    def hi(o): return o.vec('upper_bound')

    def f(nm, names, ret=None, rule='box', **kw):
        return method(c, rule, P, C + nm, names, ret=ret, **kw)
    f('B2AABB::get_center', ['self'], V((lo(s).x + hi(s).x) / 2, (lo(s).y + hi(s).y) / 2))
    f('B2AABB::get_extents', ['self'], V((hi(s).x - lo(s).x) / 2, (hi(s).y - lo(s).y) / 2))
    f('B2AABB::get_perimeter', ['self'], 2 * (hi(s).x - lo(s).x + hi(s).y - lo(s).y))

    def join(x, y):
        return {'lower_bound': V(smin(lo(x).x, lo(y).x), smin(lo(x).y, lo(y).y)), 'upper_bound': V(smax(hi(x).x, hi(y).x), smax(hi(x).y, hi(y).y))}
    f('B2AABB::combine', ['self', 'a'], want={'self': join(s, a)})
    f('B2AABB::combine_two', ['self', 'a', 'b'], want={'self': join(a, b)})
    f('B2AABB::contains', ['self', 'a'], ~(lo(a).x < lo(s).x) & ~(lo(a).y < lo(s).y) & ~(hi(s).x < hi(a).x) & ~(hi(s).y < hi(a).y))
    valid = ~(hi(s).x < lo(s).x) & ~(hi(s).y < lo(s).y) & fin(lo(s).x) & fin(lo(s).y) & fin(hi(s).x) & fin(hi(s).y)
    f('B2AABB::is_valid', ['self'], valid)
    f('b2_aabb_is_valid', ['self'], valid)
    f('b2_test_overlap', ['a', 'b'], ~(hi(a).x < lo(b).x) & ~(hi(a).y < lo(b).y) & ~(hi(b).x < lo(a).x) & ~(hi(b).y < lo(a).y))
    # slab test
    inp, out = sym('input'), sym('output')
    p, q, mf = inp.vec('p1'), inp.vec('p2'), inp.num('max_fraction')
    d = q - p
    tmin, tmax, nrm, miss = -BIG, BIG, V(k(0), k(0)), S(FALSE)
    for ax in ('x', 'y'):
        pi, di, l, h = getattr(p, ax), getattr(d, ax), getattr(lo(s), ax), getattr(hi(s), ax)
        par = sabs(di) < EPS
        t1, t2 = (l - pi) / di, (h - pi) / di
        sw = t2 < t1
        near, far, sg = ite(sw, t2, t1), ite(sw, t1, t2), ite(sw, k(1), k(-1))
        up = ~par & (tmin < near)
        e = V(sg, k(0)) if ax == 'x' else V(k(0), sg)
        nrm = both(up, e, nrm)
        tmin = ite(up, near, tmin)
        tmax = ite(par, tmax, smin(tmax, far))
        miss = miss | (par & ((pi < l) | (h < pi))) | (~par & (tmax < tmin))
    hit = ~miss & ~(tmin < 0) & ~(mf < tmin)
    f('B2AABB::ray_cast', ['self', 'output', 'input'], hit, unroll=3, want={'output.fraction': ite(hit, tmin, out.num('fraction')), 'output.normal': both(hit, nrm, out.vec('normal'))})

    # ---- world manifold
    m, xa, xb, ra, rb = sym('m'), sym('xa').xf(), sym('xb').xf(), sym('ra').num(), sym('rb').num()
    WM = ['self', 'm', 'xa', 'ra', 'xb', 'rb']
    for kind in ('ECircles', 'EFaceA', 'EFaceB'):
        for n in (0, 1, 2) if kind != 'ECircles' else (0, 1):
            want = {}
            if n and kind == 'ECircles':
                pa, pb = mulx(xa, m.vec('local_point')), mulx(xb, at(m, 'points', 0).vec('local_point'))
                N = both(EPS * EPS < dot(pa - pb, pa - pb), unit(pb - pa), V(k(1), k(0)))
                ca, cb = pa + ra * N, pb - rb * N
                want = {'self.normal': N, 'self.points.[0]': V((ca.x + cb.x) / 2, (ca.y + cb.y) / 2), 'self.separations.[0]': dot(cb - ca, N)}
            elif n:
                # face manifolds: the reference face belongs to one shape, the points to the other
                xr, xi, rr, ri = (xa, xb, ra, rb) if kind == 'EFaceA' else (xb, xa, rb, ra)
                N = mulq(xr.q, m.vec('local_normal'))
                pl = mulx(xr, m.vec('local_point'))
                want = {'self.normal': N if kind == 'EFaceA' else V(-N.x, -N.y)}
                for j in range(n):
                    cp = mulx(xi, at(m, 'points', j).vec('local_point'))
                    cr, ci = cp + (rr - dot(cp - pl, N)) * N, cp - ri * N
                    want['self.points.[%d]' % j] = V((cr.x + ci.x) / 2, (cr.y + ci.y) / 2)
                    want['self.separations.[%d]' % j] = dot(ci - cr, N)
            f('B2worldManifold::initialize', WM, rule='manifold', want=want, unroll=4, fix={'point_count': nd(k(n)), 'manifold_type': ty(kind)}, label='world manifold %s %d points' % (kind, n))

    # ---- point states
    def same_id(x, y):
        r = S(TRUE)
        for g in ('index_a', 'index_b', 'type_a', 'type_b'):
            r = r & x.num('id', 'cf', g).eq(y.num('id', 'cf', g))
        return r
    m1, m2 = sym('m1'), sym('m2')
    for n1 in (0, 1, 2):
        for n2 in (0, 1, 2):
            want = {}
            for st, mine, n_, other, no, gone in (('s1', m1, n1, m2, n2, 'B2RemoveState'), ('s2', m2, n2, m1, n1, 'B2AddState')):
                for i in range(2):
                    v = state('B2NullState')
                    if i < n_:
                        found = S(FALSE)
                        for j in range(no):
                            found = found | same_id(at(mine, 'points', i), at(other, 'points', j))
                        v = ite(found, state('B2PersistState'), state(gone))
                    want['%s.[%d]' % (st, i)] = v
            f('b2_get_point_states', ['s1', 's2', 'm1', 'm2'], rule='manifold', want=want, unroll=4, fix={'m1.point_count': nd(k(n1)), 'm2.point_count': nd(k(n2))}, label='point states %d/%d' % (n1, n2))

    # ---- clipping a segment to a half plane
    vin, N, off, vi = sym('vin'), sym('normal').vec(), sym('offset').num(), sym('vi').num()
    v0, v1 = at(vin, 0), at(vin, 1)
    d0, d1 = dot(N, v0.vec('v')) - off, dot(N, v1.vec('v')) - off
    cut = d0 * d1 < 0
    t = d0 / (d0 - d1)
    x = v0.vec('v') + t * (v1.vec('v') - v0.vec('v'))
    in0, in1 = ~(k(0) < d0), ~(k(0) < d1)
    r = summarise(c, P, C + 'b2_clip_segment_to_line', names=['vout', 'vin', 'normal', 'offset', 'vi'])
    vout = sym('vout')
    cases = (('both inside', in0 & in1 & ~cut, 2, (v0, v1)), ('first inside', in0 & ~in1 & cut, 2, (v0, None)), ('second inside', ~in0 & in1 & cut, 2, (v1, None)),
             ('only first touches', in0 & ~in1 & ~cut, 1, (v0,)), ('only second touches', ~in0 & in1 & ~cut, 1, (v1,)), ('both outside', ~in0 & ~in1 & ~cut, 0, ()))
    cfs = ('index_a', 'index_b', 'type_a', 'type_b')
    for lab, cond, cnt, outs in cases:
        c.ob('manifold', 'clip count, ' + lab, same(E.constrain(r.ret, cond.n), k(cnt)), 'returns %s instead of %d' % (E.show(E.constrain(r.ret, cond.n), 3)[:200], cnt))
        for i in range(2):
            src = outs[i] if i < len(outs) else vout.at(('i', nd(k(i))))
            for kk in [('v', 'x'), ('v', 'y')] + [('id', 'cf', g) for g in cfs]:
                if src is None:
                    w = {'x': x.x, 'y': x.y, 'index_a': vi, 'index_b': v0.num('id', 'cf', 'index_b'), 'type_a': k(0), 'type_b': k(1)}[kk[-1]]
                else:
                    w = src.num(*kk)
                g = r.value(term(('ptr', ('H', vout.n), ())), (('i', nd(k(i))),) + kk)
                g = E.constrain(g, cond.n)
                c.ob('manifold', 'clip vertex %d %s, %s' % (i, '.'.join(kk), lab), same(g, E.constrain(w.n, cond.n)), 'code stores %s, expected %s' % (E.show(g, 4)[:200], E.show(w.n, 4)[:200]))
    imp = (in0 & in1 & cut)
    no_panic(c, 'manifold', 'clip', r, imp | (~in0 & ~in1 & cut))
    extra = sorted(set(kk.split('.')[0] for kk in changes(r)) - {'vout'})
    c.ob('manifold', 'clip changes only its output', not extra, 'changes %s' % extra)
