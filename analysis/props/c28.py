"""Shapes: construction, point tests, ray casts, bounding boxes and mass properties."""
from ..spec import *
from .c26 import EPS, PI

KINDS = {'circle': 'Circle', 'edge': 'Edge', 'polygon': 'Polygon', 'chain': 'Chain'}
me, xf, inp = sym('self'), sym('xf').xf(), sym('input')
p1, p2, maxf = inp.vec('p1'), inp.vec('p2'), inp.num('max_fraction')
rad = me.num('base', 'm_radius')
MAXV = 8


def own(k_, fn):
    return 'shapes::b2_%s_shape::B2%sShape::%s' % (k_, k_, fn)


def path(kind, fn):
    t = 'shapes::b2_%s_shape::B2%sShape' % (kind, kind)
    return '<%s as b2_shape::B2shapeDynTrait>::%s' % (t, fn)


def el(f, i): return me.vec(f, ('i', nd(k(i))))


def unit(v):
    """normalisation as documented: vectors shorter than machine epsilon are left alone."""
    l = length(v)
    return V(ite(l < EPS, v.x, v.x / l), ite(l < EPS, v.y, v.y / l))


def both(cnd, a, b): return V(ite(cnd, a.x, b.x), ite(cnd, a.y, b.y))


def box_of(pts, r):
    lo, hi = pts[0], pts[0]
    for q in pts[1:]:
        lo, hi = V(smin(lo.x, q.x), smin(lo.y, q.y)), V(smax(hi.x, q.x), smax(hi.y, q.y))
    rr = V(r, r)
    return {'lower_bound': lo - rr, 'upper_bound': hi + rr}


def edge_cast(a, b, one_sided, base):
    """ray against segment ab in the frame of xf: (hit, outputs)."""
    q1, q2 = mulqT(xf.q, p1 - xf.p), mulqT(xf.q, p2 - xf.p)
    d = q2 - q1
    e = b - a
    nrm = unit(V(e.y, -e.x))
    num, den = dot(nrm, a - q1), dot(nrm, d)
    t = num / den
    q = q1 + t * d
    rr = dot(e, e)
    s = dot(q - a, e) / rr
    hit = ~(one_sided & (num > 0)) & ~den.eq(0) & ~(t < 0) & ~(maxf < t) & ~rr.eq(0) & ~(s < 0) & ~(k(1) < s)
    w = mulq(xf.q, nrm)
    out = sym('output')
    return hit, {'output.fraction': ite(hit, t, out.num('fraction')),
                 'output.normal': both(hit, both(num > 0, V(-w.x, -w.y), w), out.vec('normal'))}


def check(c):
    P = c.P
    c.rule('shape', 'the shape operation returns or stores exactly the value its geometric definition gives, and changes nothing else')
    c.rule('count', 'polygon operations, specialised to each vertex count, give exactly the geometric definition')

    def f(kind, name, names, ret=None, rule='shape', label='', **kw):
        full = path(kind, name) if name in TRAIT else own(kind, name)
        return method(c, rule, P, full, names, ret=ret, label=kind + ' ' + name + label, **kw)
    TRAIT = ('get_child_count', 'test_point', 'ray_cast', 'compute_aabb', 'compute_mass', 'get_type', 'get_base')
    out, md = sym('output'), sym('md')
    RC = ['self', 'output', 'input', 'xf', 'child']
    p = sym('p').vec()
    dens = sym('density').num()
    for kind in ('circle', 'edge', 'polygon'):
        f(kind, 'get_child_count', ['self'], k(1))
    vs = me.at('m_vertices')
    n = vs.num('len')
    f('chain', 'get_child_count', ['self'], n - 1, panic=n < 1)
    for kind in KINDS:
        f(kind, 'get_type', ['self'], me.at('base', 'm_type'))

    # ---- circle
    ctr = mulx(xf, me.vec('m_p'))
    f('circle', 'test_point', ['self', 'xf', 'p'], ~(rad * rad < dot(p - ctr, p - ctr)))
    s, r = p1 - ctr, p2 - p1
    b, cc, rr = dot(s, s) - rad * rad, dot(s, r), dot(r, r)
    sigma = cc * cc - rr * b
    a = -(cc + sqrt(sigma))
    hit = ~(sigma < 0) & ~(rr < EPS) & ~(a < 0) & ~(maxf * rr < a)
    f('circle', 'ray_cast', RC, hit, want={'output.fraction': ite(hit, a / rr, out.num('fraction')), 'output.normal': both(hit, unit(s + (a / rr) * r), out.vec('normal'))})
    f('circle', 'compute_aabb', ['self', 'aabb', 'xf', 'child'], want={'aabb': {'lower_bound': ctr - V(rad, rad), 'upper_bound': ctr + V(rad, rad)}})
    m = dens * PI * rad * rad
    mp = me.vec('m_p')
    f('circle', 'compute_mass', ['self', 'md', 'density'], want={'md': {'mass': m, 'center': mp, 'i': m * (rad * rad / 2 + dot(mp, mp))}})

    # ---- edge
    v1, v2 = me.vec('m_vertex1'), me.vec('m_vertex2')
    f('edge', 'test_point', ['self', 'xf', 'p'], S(E.FALSE))
    hit, w = edge_cast(v1, v2, me.bool('m_one_sided'), me)
    f('edge', 'ray_cast', RC, hit, want=w)
    f('edge', 'compute_aabb', ['self', 'aabb', 'xf', 'child'], want={'aabb': box_of([mulx(xf, v1), mulx(xf, v2)], rad)})
    f('edge', 'compute_mass', ['self', 'md', 'density'], want={'md': {'mass': k(0), 'center': V((v1.x + v2.x) / 2, (v1.y + v2.y) / 2), 'i': k(0)}})
    q = [sym('v%d' % i).vec() for i in range(4)]
    f('edge', 'set_one_sided', ['self', 'v0', 'v1', 'v2', 'v3'], want={'self': {'m_vertex%d' % i: q[i] for i in range(4)} | {'m_one_sided': S(E.TRUE)}})
    f('edge', 'set_two_sided', ['self', 'v1', 'v2'], want={'self': {'m_vertex1': q[1], 'm_vertex2': q[2], 'm_one_sided': S(E.FALSE)}})

    # ---- chain
    ch = sym('child').num()
    nxt = ite((ch + 1).eq(n), 0, ch + 1)
    e1, e2 = me.vec('m_vertices', ('i', nd(ch))), me.vec('m_vertices', ('i', nd(nxt)))
    bad = ~(ch < n) | n.eq(0)
    f('chain', 'test_point', ['self', 'xf', 'p'], S(E.FALSE))
    f('chain', 'compute_mass', ['self', 'md', 'density'], want={'md': {'mass': k(0), 'center': V(k(0), k(0)), 'i': k(0)}})
    last = (ch + 1).eq(n)

    def at(i): return me.vec('m_vertices', ('i', nd(i)))
    for lab, u, e2 in ((' inner', ~last, at(ch + 1)), (' last', last, at(k(0)))):
        f('chain', 'compute_aabb', ['self', 'aabb', 'xf', 'child'], want={'aabb': box_of([mulx(xf, at(ch)), mulx(xf, e2)], rad)}, panic=bad, under=u, label=lab)
        hit, w = edge_cast(at(ch), e2, S(E.FALSE), me)
        f('chain', 'ray_cast', RC, hit, want=w, panic=bad, under=u, label=lab)
    i = sym('index').num()
    edge = sym('edge')
    f('chain', 'get_child_edge', ['self', 'edge', 'index'], panic=n.eq(0) | ~(i < n - 1) | (i < 0), want={
        'edge.base.m_radius': rad, 'edge.m_one_sided': S(E.TRUE), 'edge.m_vertex1': at(i), 'edge.m_vertex2': at(i + 1),
        'edge.base.m_type': S(term(('agg', 'b2_shape::B2ShapeType', 'EEdge', ()))),
        'edge.m_vertex0': both(k(0) < i, at(i - 1), me.vec('m_prev_vertex')), 'edge.m_vertex3': both(i < n - 2, at(i + 2), me.vec('m_next_vertex'))})

    # ---- chain construction
    vv = sym('vertices')
    m_ = vv.num('len')
    SL2 = f32(0.005) * f32(0.005)

    def vat(i): return vv.vec(('i', nd(i)))
    for nm, params, least in (('create_loop', [], 3), ('create_chain', ['prev', 'next'], 2)):
        r = summarise(c, P, own('chain', nm), names=['self', 'vertices'] + params)
        ls = loops(r)
        if c.ob('shape', nm + ' spacing pass', len(ls) == 1, '%d passes over the vertices' % len(ls)):
            v_ = expect_loop(c, 'shape', nm + ' compares every vertex with its predecessor', ls[0], {'i': k(1)}, lambda v: {'i': v['i'] + 1}, lambda v: v['i'] < m_)
            if v_:
                i_ = v_['i']
                pan = S(FALSE)
                for x in ls[0].sub:
                    if x.kind == 'panic':
                        pan = pan | S(x.guard)
                d = vat(i_) - vat(i_ - 1)
                dom = (i_ < m_) & (i_ - 1 < m_) & ~(i_ < 1) & ~(m_ < least)
                c.ob('shape', nm + ' rejects exactly vertices closer than the linear slop', (pan & dom).n == (dom & ~(SL2 < dot(d, d))).n, 'rejected when ' + E.show((pan & dom).n, 5)[:300])
        top = S(FALSE)
        for x in r.effects:
            if x.kind == 'panic':
                top = top | S(x.guard)
        dom = ~(n < 0) & ~(m_ < 0) & (~m_.eq(0) | (m_ < least))
        c.ob('shape', nm + ' needs an empty chain and at least %d vertices' % least, (top & dom).n == (dom & (~n.eq(0) | (m_ < least))).n, 'rejected when ' + E.show((top & dom).n, 5)[:300])
        ok = ~(m_ < least)
        got = changes(r)
        c.ob('shape', nm + ' frame', set(got) == {'self.m_vertices', 'self.m_prev_vertex', 'self.m_next_vertex'}, 'changes %s' % sorted(got))
        if nm == 'create_loop':
            wv = r.eng.set_field(r.eng.set_field(vv.n, ('i', m_.n), vv.at(('i', nd(k(0)))).n), 'len', (m_ + 1).n)
            want = {'self.m_vertices': (wv,), 'self.m_prev_vertex': (vv.at(('i', (m_ - 1).n)).n,), 'self.m_next_vertex': (vv.at(('i', nd(k(1)))).n,)}
        else:
            want = {'self.m_vertices': (vv.n, vv.ptr()), 'self.m_prev_vertex': (sym('prev').n,), 'self.m_next_vertex': (sym('next').n,)}
        for kk, ws in want.items():
            g = E.constrain(got.get(kk, E.FALSE), ok.n)
            c.ob('shape', nm + ' ' + kk, g in ws, 'code stores %s, expected %s' % (E.show(g, 4)[:200], E.show(ws[0], 4)[:200]))
    r = summarise(c, P, own('chain', 'clear'), names=['self'])
    g = changes(r)
    c.ob('shape', 'clear empties the chain', set(g) == {'self.m_vertices'} and E.show(g['self.m_vertices']) == 'vec{}', 'chain not emptied: %s' % {a_: E.show(b_, 3)[:80] for a_, b_ in g.items()})

    # ---- polygon boxes
    hx, hy, ang, cen = sym('hx').num(), sym('hy').num(), sym('angle').num(), sym('center').vec()
    cs = [V(-hx, -hy), V(hx, -hy), V(hx, hy), V(-hx, hy)]
    ns = [V(k(0), k(-1)), V(k(1), k(0)), V(k(0), k(1)), V(k(-1), k(0))]

    def poly(vv, nn, ce):
        w = {'self.m_count': k(4), 'self.m_centroid': ce}
        for j in range(4):
            w['self.m_vertices.[%d]' % j], w['self.m_normals.[%d]' % j] = vv[j], nn[j]
        return w
    f('polygon', 'set_as_box', ['self', 'hx', 'hy'], want=poly(cs, ns, V(k(0), k(0))))
    X_ = X(cen, rot(ang))
    f('polygon', 'set_as_box_angle', ['self', 'hx', 'hy', 'center', 'angle'], want=poly([mulx(X_, q_) for q_ in cs], [mulq(X_.q, q_) for q_ in ns], cen), unroll=5)

    # ---- polygons with a given number of vertices
    for cnt in range(3, MAXV + 1):
        kw = dict(rule='count', fix={'m_count': nd(k(cnt))}, unroll=MAXV + 1, label=' %d vertices' % cnt)
        V_ = [el('m_vertices', j) for j in range(cnt)]
        N_ = [el('m_normals', j) for j in range(cnt)]
        loc = mulqT(xf.q, p - xf.p)
        inside = S(E.TRUE)
        for vj, nj in zip(V_, N_):
            inside = inside & ~(k(0) < dot(nj, loc - vj))
        f('polygon', 'test_point', ['self', 'xf', 'p'], inside, **kw)
        f('polygon', 'compute_aabb', ['self', 'aabb', 'xf', 'child'], want={'aabb': box_of([mulx(xf, v_) for v_ in V_], rad)}, **kw)
        s0 = V_[0]
        area, mom, inert = k(0), V(k(0), k(0)), k(0)
        for j in range(cnt):
            g1, g2 = V_[j] - s0, V_[(j + 1) % cnt] - s0
            d = cross(g1, g2)
            area = area + d / 2
            mom = mom + V((g1.x + g2.x) * d / 6, (g1.y + g2.y) * d / 6)
            inert = inert + d * (g1.x * g1.x + g1.x * g2.x + g2.x * g2.x + g1.y * g1.y + g1.y * g2.y + g2.y * g2.y) / 12
        lc = V(mom.x / area, mom.y / area)
        ce = lc + s0
        f('polygon', 'compute_mass', ['self', 'md', 'density'], panic=~(EPS < area),
          want={'md': {'mass': dens * area, 'center': ce, 'i': dens * inert + dens * area * (dot(ce, ce) - dot(lc, lc))}}, **kw)
    for cnt in (3, 4, 5):
        convex = S(E.TRUE)
        V_ = [el('m_vertices', j) for j in range(cnt)]
        for i_ in range(cnt):
            for j in range(cnt):
                if j not in (i_, (i_ + 1) % cnt):
                    convex = convex & ~(cross(V_[(i_ + 1) % cnt] - V_[i_], V_[j] - V_[i_]) < 0)
        f('polygon', 'validate', ['self'], convex, rule='count', fix={'m_count': nd(k(cnt))}, unroll=MAXV + 1, label=' %d vertices' % cnt)
    for cnt in (3,):
        V_ = [el('m_vertices', j) for j in range(cnt)]
        N_ = [el('m_normals', j) for j in range(cnt)]
        q1, q2 = mulqT(xf.q, p1 - xf.p), mulqT(xf.q, p2 - xf.p)
        d = q2 - q1
        lo, up, miss, hit, nrm = k(0), maxf, S(E.FALSE), S(E.FALSE), out.vec('normal')
        for vj, nj in zip(V_, N_):
            nu, de = dot(nj, vj - q1), dot(nj, d)
            enter = (de < 0) & (nu < lo * de)
            leave = ~enter & (k(0) < de) & (nu < up * de)
            miss = miss | (de.eq(0) & (nu < 0))
            lo, up = ite(enter, nu / de, lo), ite(leave, nu / de, up)
            nrm, hit = both(enter, nj, nrm), hit | enter
            miss = miss | (up < lo)
        ok = hit & ~miss
        w = mulq(xf.q, nrm)
        f('polygon', 'ray_cast', RC, ok, rule='count', fix={'m_count': nd(k(cnt))}, unroll=MAXV + 1, label=' %d vertices' % cnt,
          panic=~miss & ((lo < 0) | (maxf < lo)), want={'output.fraction': ite(ok, lo, out.num('fraction')), 'output.normal': both(ok, w, out.vec('normal'))})
