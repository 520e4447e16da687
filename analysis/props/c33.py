"""Manifolds between polygons, by clipping the incident edge against the reference face."""
from ..spec import *
from ..spec import _lw as lift
from .c26 import EPS
from .c28 import unit, both
from .c30 import BIG, ty, at
from .c32 import CF, VERTEX, FACE, NAMES

PP = 'b2_collision::b2_collide_polygons'
CLIP = ('b2_collision::b2_clip_segment_to_line', 'private::collision::b2_collision::b2_clip_segment_to_line')
PARTS = (('v', 'x'), ('v', 'y')) + tuple(('id', 'cf', g) for g in CF)


def asnum(x):
    if E.isnum(x):
        return x
    return E.like(x, E.ZERO) if is_term(x) else lift(x, lambda y: y if E.isnum(y) else E.like(y, E.ZERO))


def flat(e, arr):
    """the scalar components of a pair of clip vertices."""
    out = []
    for i in range(2):
        for p in PARTS:
            x = e.field(arr, ('i', nd(k(i))))
            for q in p:
                x = e.field(x, q)
            out.append(asnum(x))
    return out


def clip_hook(e, fr, st, args, tys, dt, line, fop):
    """the clipping routine as an uninterpreted function of its inputs (decided separately)."""
    from ..engine import Effect
    ins = flat(e, args[1]) + [asnum(e.field(args[2], g)) for g in 'xy'] + [asnum(args[3]), asnum(args[4])]
    e.effects.append(Effect('call', st.pc, fr.path, line, name='clip', args=list(args), ret=None, mem=dict(st.mem), argtys=tys, info={'pure': True}))
    for i in range(2):
        for p in PARTS:
            ptr = e.extend(args[0], ('i', nd(k(i))))
            for q in p:
                ptr = e.extend(ptr, q)
            e.store(st, ptr, E.numapp('clip.%d.%s' % (i, '.'.join(p)), *ins), fr, line)
    return E.numapp('clip.count', *ins)


HOOKS = {p: clip_hook for p in CLIP}


def vertex(v, feature):
    return [v.x, v.y] + list(feature)


def clip(pair, n, off, i):
    """the specification's view of one clipping step: count and the two clipped vertices."""
    ins = [x.n for v in pair for x in v] + [n.x.n, n.y.n, nd(off), nd(i)]
    return S(E.numapp('clip.count', *ins)), [[S(E.numapp('clip.%d.%s' % (j, '.'.join(p)), *ins)) for p in PARTS] for j in range(2)]


def store_points(ok, kept, points):
    """kept[i]: the i-th candidate is stored; points[i] = (local point, features): they fill the slots in order."""
    m = sym('m')
    want = {'m.point_count': ite(ok & kept[0], k(1), k(0)) + ite(ok & kept[1], k(1), k(0))}
    first = [ok & kept[0], ok & ~kept[0] & kept[1]]
    second = ok & kept[0] & kept[1]
    for j, sel in ((0, first), (1, [S(FALSE), second])):
        old = at(m, 'points', j)
        def pick(a, b, o): return ite(sel[0], a, ite(sel[1], b, o))
        (la, fa), (lb, fb) = points
        for g in 'xy':
            want['m.points.[%d].local_point.%s' % (j, g)] = pick(getattr(la, g), getattr(lb, g), getattr(old.vec('local_point'), g))
        for n, g in enumerate(CF):
            want['m.points.[%d].id.cf.%s' % (j, g)] = pick(fa[n], fb[n], old.num('id', 'cf', g))
    return want


def swapped(f): return [f[1], f[0], f[3], f[2]]


def check(c):
    P = c.P
    c.rule('polygon', 'the manifold stored for two polygons is exactly the specified one: reference face of greatest separation, incident edge most anti-parallel, clipped to the side planes, points within the skin kept')
    a, b, xa, xb, m = sym('a'), sym('b'), sym('xa').xf(), sym('xb').xf(), sym('m')
    R = a.num('base', 'm_radius') + b.num('base', 'm_radius')

    def vert(o, i): return o.vec('m_vertices', ('i', i.n))
    def norm(o, i): return o.vec('m_normals', ('i', i.n))
    r = summarise(c, P, PP, names=NAMES, unroll=4, hooks=HOOKS)
    ls = loops(r)
    if not c.ob('polygon', 'two separation searches and one incident edge search', len(ls) == 3, '%d loops' % len(ls)):
        return

    def separation(lp, o1, x1, o2, x2, lab):
        q = qmulT(x2.q, x1.q)
        tp = mulqT(x2.q, x1.p - x2.p)

        def step(v):
            n_ = mulq(q, norm(o1, v['i']))
            v_ = mulq(q, vert(o1, v['i'])) + tp

            def istep(u):
                s = dot(n_, vert(o2, u['j']) - v_)
                return {'j': u['j'] + 1, 's': smin(s, u['s'])}
            inner = inner_loop(lp, {'j': k(0), 's': BIG}, istep, lambda u: u['j'] < o2.num('m_count'), n=1)
            up = v['s'] < inner['s']
            return {'i': v['i'] + 1, 's': ite(up, inner['s'], v['s']), 'e': ite(up, v['i'], v['e'])}
        return expect_loop(c, 'polygon', 'greatest separation along the normals of the ' + lab, lp, {'i': k(0), 's': -BIG, 'e': k(0)}, step, lambda v: v['i'] < o1.num('m_count'), res=r)
    wa = separation(ls[0], a, xa, b, xb, 'first polygon')
    wb = separation(ls[1], b, xb, a, xa, 'second polygon')
    if wa is None or wb is None:
        return
    apart = (R < wa['s']) | (R < wb['s'])
    TOL = f32(0.1) * f32(0.005)
    flip = wa['s'] + TOL < wb['s']
    got = changes(r)
    for lab, cond, o1, o2, x1, x2, edge, kind in (('first', ~flip, a, b, xa, xb, wa['e'], 'EFaceA'), ('second', flip, b, a, xb, xa, wb['e'], 'EFaceB')):
        under = ~apart & cond
        n1 = mulqT(x2.q, mulq(x1.q, norm(o1, edge)))

        def step(v):
            d = dot(n1, norm(o2, v['i']))
            lt = d < v['d']
            return {'i': v['i'] + 1, 'd': ite(lt, d, v['d']), 'f': ite(lt, v['i'], v['f'])}
        w = expect_loop(c, 'polygon', 'the incident edge is the most anti-parallel one, reference face on the %s polygon' % lab, restrict(ls[2], under), {'i': k(0), 'd': BIG, 'f': k(0)}, step, lambda v: v['i'] < o2.num('m_count'), res=r)
        if w is None:
            return
        f = w['f']
        g = ite(f + 1 < o2.num('m_count'), f + 1, k(0))
        wrap = f + 1 < o2.num('m_count')
        inc = [vertex(mulx(x2, vert(o2, f)), (edge, f, FACE, VERTEX)),
               vertex(mulx(x2, both(wrap, vert(o2, f + 1), vert(o2, k(0)))), (edge, g, FACE, VERTEX))]
        nxt = edge + 1 < o1.num('m_count')
        v11, v12 = vert(o1, edge), both(nxt, vert(o1, edge + 1), vert(o1, k(0)))
        t = unit(v12 - v11)
        ln = V(t.y, -t.x)
        wt = mulq(x1.q, t)
        wn = V(wt.y, -wt.x)
        w11, w12 = mulx(x1, v11), mulx(x1, v12)
        c1, p1 = clip(inc, -wt, R - dot(wt, w11), edge)
        c2, p2 = clip(p1, wt, dot(wt, w12) + R, ite(nxt, edge + 1, k(0)))
        ok = ~(c1 < 2) & ~(c2 < 2)
        kept = [~(R < dot(wn, V(p[0], p[1])) - dot(wn, w11)) for p in p2]
        pts = [(mulxT(x2, V(p[0], p[1])), swapped(p[2:]) if kind == 'EFaceB' else p[2:]) for p in p2]
        want = store_points(ok, kept, pts)
        want['m.manifold_type'] = S(ty(kind))
        want['m.local_normal'] = both(ok, ln, m.vec('local_normal'))
        want['m.local_point'] = both(ok, V((v11.x + v12.x) / 2, (v11.y + v12.y) / 2), m.vec('local_point'))
        expect_changes(c, 'polygon', 'reference face on the %s polygon' % lab, r, want, under=under)
    z = (V(k(0), k(0)), [k(0)] * 4)
    expect_changes(c, 'polygon', 'polygons apart', r, store_points(S(FALSE), [S(FALSE)] * 2, [z, z]), under=apart)
