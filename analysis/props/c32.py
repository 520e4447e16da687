"""Manifolds against circles: circle, polygon and edge."""
from ..spec import *
from .c26 import EPS
from .c28 import unit, both
from .c30 import BIG, ty, at

CC = 'b2_collision::b2_collide_circles'
PC = 'b2_collision::b2_collide_polygon_and_circle'
EC = 'b2_collision::b2_collide_edge_and_circle'
NAMES = ['m', 'a', 'xa', 'b', 'xb']
CF = ('index_a', 'index_b', 'type_a', 'type_b')
VERTEX, FACE = k(0), k(1)


def single(hit, kind, normal, point, cp, feature):
    """a one-point manifold stored when hit, nothing but the cleared count otherwise."""
    m = sym('m')
    want = {'m.point_count': ite(hit, k(1), k(0)), 'm.manifold_type': ite(hit, kind, S(m.at('manifold_type').n)),
            'm.local_normal': both(hit, normal, m.vec('local_normal')), 'm.local_point': both(hit, point, m.vec('local_point')),
            'm.points.[0].local_point': both(hit, cp, at(m, 'points', 0).vec('local_point'))}
    for g, v in zip(CF, feature):
        want['m.points.[0].id.cf.' + g] = ite(hit, v, at(m, 'points', 0).num('id', 'cf', g))
    return want


def check(c):
    P = c.P
    c.rule('circle', 'the manifold stored against a circle is exactly the specified one: nothing when apart, otherwise kind, normal, point and feature of the nearest vertex or face')
    a, b, xa, xb = sym('a'), sym('b'), sym('xa').xf(), sym('xb').xf()
    R = a.num('base', 'm_radius') + b.num('base', 'm_radius')
    zero = (k(0),) * 4
    # circles
    d = mulx(xb, b.vec('m_p')) - mulx(xa, a.vec('m_p'))
    method(c, 'circle', P, CC, NAMES, want=single(~(R * R < dot(d, d)), S(ty('ECircles')), V(k(0), k(0)), a.vec('m_p'), b.vec('m_p'), zero))

    # edge and circle
    A, B = a.vec('m_vertex1'), a.vec('m_vertex2')
    one = a.bool('m_one_sided')
    q = mulxT(xa, mulx(xb, b.vec('m_p')))
    e = B - A
    n = V(e.y, -e.x)
    off = dot(n, q - A)
    u, v = dot(e, B - q), dot(e, q - A)
    back = one & (off < 0)
    inA, inB = ~(k(0) < v), ~(k(0) < u)
    e1, e2 = A - a.vec('m_vertex0'), a.vec('m_vertex3') - B
    hitA = ~(R * R < dot(q - A, q - A)) & ~(one & (k(0) < dot(e1, A - q)))
    hitB = ~(R * R < dot(q - B, q - B)) & ~(one & (k(0) < dot(e2, q - B)))
    den = dot(e, e)
    p = V((u * A.x + v * B.x) / den, (u * A.y + v * B.y) / den)
    hitF = ~(R * R < dot(q - p, q - p))
    hit = ~back & ite(inA, hitA, ite(inB, hitB, hitF))
    vertex = inA | inB
    nn = unit(both(off < 0, V(-n.x, -n.y), n))
    want = single(hit, ite(vertex, S(ty('ECircles')), S(ty('EFaceA'))), both(vertex, V(k(0), k(0)), nn), both(~inA & inB, B, A), b.vec('m_p'),
                  (ite(~inA & inB, k(1), k(0)), k(0), ite(vertex, VERTEX, FACE), VERTEX))
    method(c, 'circle', P, EC, NAMES, want=want, panic=~back & ~inA & ~inB & ~(k(0) < den))

    # polygon and circle
    r = summarise(c, P, PC, names=NAMES)
    ls = loops(r)
    if not c.ob('circle', 'polygon and circle: one search over the faces', len(ls) == 1, '%d loops' % len(ls)):
        return
    cl = q
    cnt = a.num('m_count')

    def vert(i): return a.vec('m_vertices', ('i', i.n))
    def norm(i): return a.vec('m_normals', ('i', i.n))

    def sep(v): return dot(norm(v['i']), cl - vert(v['i']))

    def step(v):
        s = sep(v)
        up = v['s'] < s
        return {'i': v['i'] + 1, 's': ite(up, s, v['s']), 'f': ite(up, v['i'], v['f'])}
    w = expect_loop(c, 'circle', 'the face of greatest separation is found, giving up when a face separates by more than the radius', ls[0],
                    {'i': k(0), 's': -BIG, 'f': k(0)}, step, lambda v: (v['i'] < cnt) & ~(R < sep(v)), res=r)
    if w is None:
        return
    f, s = w['f'], w['s']
    g = ite(f + 1 < cnt, f + 1, k(0))
    v1, v2 = vert(f), both(f + 1 < cnt, vert(f + 1), vert(k(0)))
    through = ~(w['i'] < cnt)
    inside = s < EPS
    u1, u2 = dot(cl - v1, v2 - v1), dot(cl - v2, v1 - v2)
    n1, n2 = ~(k(0) < u1), ~(k(0) < u2)
    mid = V((v1.x + v2.x) / 2, (v1.y + v2.y) / 2)
    hit = through & (inside | ite(n1, ~(R * R < dot(cl - v1, cl - v1)), ite(n2, ~(R * R < dot(cl - v2, cl - v2)), ~(R < dot(cl - mid, norm(f))))))
    face = inside | (~n1 & ~n2)
    normal = both(face, norm(f), unit(both(n1, cl - v1, cl - v2)))
    point = both(face, mid, both(n1, v1, v2))
    expect_changes(c, 'circle', 'polygon and circle', r, single(hit, S(ty('EFaceA')), normal, point, b.vec('m_p'), zero))
