"""Manifolds between an edge and a polygon, with ghost vertices."""
from ..spec import *
from .c26 import EPS
from .c28 import unit, both
from .c30 import BIG, ty
from .c32 import VERTEX, FACE, NAMES
from .c33 import HOOKS, clip, vertex, store_points, swapped

EP = 'b2_collision::b2_collide_edge_and_polygon'


def normalise(e, fr, st, args, tys, dt, line, fop):
    """v / |v| for a vector longer than epsilon (the degenerate case is decided with the vector algebra)."""
    x, y = (e.load(st, e.extend(args[0], g)) for g in 'xy')
    n = E.sqrt(E.add(E.mul(x, x), E.mul(y, y)))
    for g, v in (('x', x), ('y', y)):
        e.store(st, e.extend(args[0], g), E.div(v, n), fr, line)
    return n


def dir_(v):
    n = length(v)
    return V(v.x / n, v.y / n)


def check(c):
    for one in (False, True):
        sided(c, one)


def sided(c, one_):
    P = c.P
    hooks = dict(HOOKS)
    hooks['b2_math::B2vec2::normalize'] = normalise
    tag = 'one-sided: ' if one_ else 'two-sided: '
    c.rule('edge', 'the manifold stored for an edge and a polygon is exactly the specified one: best axis with hysteresis, ghost vertex regions, clipping, points within the skin kept')
    a, b, xa, xb, m = sym('a'), sym('b'), sym('xa').xf(), sym('xb').xf(), sym('m')
    R = a.num('base', 'm_radius') + b.num('base', 'm_radius')
    cnt = b.num('m_count')
    xf = X(mulqT(xa.q, xb.p - xa.p), qmulT(xa.q, xb.q))
    v1, v2 = a.vec('m_vertex1'), a.vec('m_vertex2')
    e1 = v2 - v1
    e1 = dir_(e1)
    n1 = V(e1.y, -e1.x)
    one = S(TRUE if one_ else FALSE)
    behind = one & (dot(n1, mulx(xf, b.vec('m_centroid')) - v1) < 0)
    r = summarise(c, P, EP, names=NAMES, unroll=4, hooks=hooks, fix={'m_one_sided': one.n})
    ls = loops(r)
    if not c.ob('edge', tag + 'transform, two axis searches and the incident edge search', len(ls) == 5, '%d loops' % len(ls)):
        return
    front = ~behind

    def el(o, i): return o.vec(('i', i.n))
    # polygon in the frame of the edge
    lp = restrict(ls[0], front)
    start = [Obj(x[0]) for kk, x in lp.mus.items() if not E.isnum(x[1]) and not E.isbool(x[1])]
    if not c.ob('edge', tag + 'two buffers for the moved polygon', len(start) == 2, '%d buffers' % len(start)):
        return

    def step(v):
        i = v['i']
        return {'i': i + 1, 'tv': {i: mulx(xf, b.vec('m_vertices', ('i', i.n)))}, 'tn': {i: mulq(xf.q, b.vec('m_normals', ('i', i.n)))}}
    w = expect_loop(c, 'edge', tag + 'the polygon is moved into the frame of the edge', lp, {'i': k(0), 'tv': start[0], 'tn': start[1]}, step, lambda v: v['i'] < cnt, res=r)
    if w is None:
        return
    tv, tn = w['tv'], w['tn']
    # the two directions of the edge normal
    seps = []
    for j, n in ((1, n1), (2, -n1)):
        def step(v, n=n):
            return {'i': v['i'] + 1, 's': smin(dot(n, el(tv, v['i']) - v1), v['s'])}
        w = expect_loop(c, 'edge', tag + 'deepest vertex along edge normal %d' % j, restrict(ls[j], front), {'i': k(0), 's': BIG}, step, lambda v: v['i'] < cnt, res=r)
        if w is None:
            return
        seps.append(w['s'])
    se, ne = -BIG, V(k(0), k(0))
    for s_, n_ in zip(seps, (n1, -n1)):
        up = se < s_
        se, ne = smax(se, s_), both(up, n_, ne)
    live = front & ~(R < se)

    # polygon normals
    def step(v):
        n = -el(tn, v['i'])
        s = smin(dot(n, el(tv, v['i']) - v1), dot(n, el(tv, v['i']) - v2))
        up = v['s'] < s
        return {'i': v['i'] + 1, 's': ite(up, s, v['s']), 'f': ite(up, v['i'], v['f']), 'nx': ite(up, n.x, v['nx']), 'ny': ite(up, n.y, v['ny'])}
    lp = restrict(ls[3], live)
    w = expect_loop(c, 'edge', tag + 'greatest separation along the polygon normals', lp, {'i': k(0), 's': -BIG, 'f': k(-1), 'nx': k(0), 'ny': k(0)}, step, lambda v: v['i'] < cnt, res=r)
    if w is None:
        return
    sp, ip, np_ = w['s'], w['f'], V(w['nx'], w['ny'])
    apart = (R < se) | (R < sp)
    # the kind recorded with the polygon axis is never that of the edge axis
    kinds = [x for kk, x in lp.mus.items() if not E.isnum(x[1]) and not E.isbool(x[1]) and x[2] is not None]
    never = S(TRUE)
    for x in kinds:
        if all(t == x[1] or payload(t)[0] == 'agg' and payload(t)[2] != 'EEdgeA' for y in (x[0], x[2]) for t in E.terminals(y)):
            never = never & ~S(E.is_variant(x[1], 1, 3))
    near = never & front & ~apart
    poly = f32(0.98) * (se - R) + f32(0.001) < sp - R
    pn = both(poly, np_, ne)
    e0, e2 = dir_(v1 - a.vec('m_vertex0')), dir_(a.vec('m_vertex3') - v2)
    n0, n2 = V(e0.y, -e0.x), V(e2.y, -e2.x)
    cx1, cx2 = ~(cross(e0, e1) < 0), ~(cross(e1, e2) < 0)
    side1 = ~(k(0) < dot(pn, e1))
    TOL = f32(0.1)
    skip = one & ite(side1, cx1 & (TOL < cross(pn, n0)), cx2 & (TOL < cross(n2, pn)))
    snap = one & ite(side1, ~cx1, ~cx2)
    byedge = ~poly | snap

    got = changes(r)
    # reference face on the edge
    under = near & ~skip & byedge

    def step(v):
        d = dot(ne, el(tn, v['i']))
        lt = d < v['d']
        return {'i': v['i'] + 1, 'd': ite(lt, d, v['d']), 'f': ite(lt, v['i'], v['f'])}
    w = expect_loop(c, 'edge', tag + 'the incident edge is the most anti-parallel one', restrict(ls[4], under), {'i': k(1), 'd': S(E.constrain(dot(ne, el(tn, k(0))).n, under.n)), 'f': k(0)}, step, lambda v: v['i'] < cnt, res=r)
    if w is None:
        return
    f = w['f']
    wrap = f + 1 < cnt
    inc = [vertex(el(tv, f), (k(0), f, FACE, VERTEX)), vertex(both(wrap, el(tv, f + 1), el(tv, k(0))), (k(0), ite(wrap, f + 1, k(0)), FACE, VERTEX))]
    c1, p1 = clip(inc, -e1, -dot(e1, v1), k(0))
    c2, p2 = clip(p1, e1, dot(e1, v2), k(1))
    ok = ~(c1 < 2) & ~(c2 < 2)
    kept = [~(R < dot(ne, V(p[0], p[1]) - v1)) for p in p2]
    want = store_points(ok, kept, [(mulxT(xf, V(p[0], p[1])), p[2:]) for p in p2])
    want['m.manifold_type'] = S(ty('EFaceA'))
    want['m.local_normal'] = both(ok, ne, m.vec('local_normal'))
    want['m.local_point'] = both(ok, v1, m.vec('local_point'))
    expect_changes(c, 'edge', tag + 'reference face on the edge', r, want, under=under, got=got)

    # reference face on the polygon
    under = near & ~skip & ~byedge
    inc = [vertex(v2, (k(1), ip, VERTEX, FACE)), vertex(v1, (k(0), ip, VERTEX, FACE))]
    nxt = ip + 1 < cnt
    r1, r2, rn = el(tv, ip), both(nxt, el(tv, ip + 1), el(tv, k(0))), el(tn, ip)
    s1 = V(rn.y, -rn.x)
    c1, p1 = clip(inc, s1, dot(s1, r1), ip)
    c2, p2 = clip(p1, -s1, -dot(s1, r2), ite(nxt, ip + 1, k(0)))
    ok = ~(c1 < 2) & ~(c2 < 2)
    kept = [~(R < dot(rn, V(p[0], p[1]) - r1)) for p in p2]
    want = store_points(ok, kept, [(V(p[0], p[1]), swapped(p[2:])) for p in p2])
    want['m.manifold_type'] = S(ty('EFaceB'))
    want['m.local_normal'] = both(ok, b.vec('m_normals', ('i', ip.n)), m.vec('local_normal'))
    want['m.local_point'] = both(ok, b.vec('m_vertices', ('i', ip.n)), m.vec('local_point'))
    expect_changes(c, 'edge', tag + 'reference face on the polygon', r, want, under=under, got=got)
    # nothing
    z = (V(k(0), k(0)), [k(0)] * 4)
    none = store_points(S(FALSE), [S(FALSE)] * 2, [z, z])
    for lab, cond in (('polygon behind a one-sided edge', behind), ('apart', front & apart), ('left to the neighbouring edge', near & skip)):
        if cond.n == FALSE:
            continue
        expect_changes(c, 'edge', tag + lab, r, none, under=cond, got=got)
