"""Building a convex polygon from points."""
from ..spec import *
from .c26 import EPS
from .c28 import own, unit, both

SLOP2 = f32(0.005 * 0.5) * f32(0.005 * 0.5)
MAXV = k(8)
me, pts = sym('self'), sym('points')


def el(o, i): return o.vec(('i', nd(i)))


def check(c):
    P = c.P
    c.rule('hull', 'each pass over the points (welding, extreme point, gift wrapping, copy, normals, centroid) carries exactly the specified state from one iteration to the next and stops exactly when specified')
    r = summarise(c, P, own('polygon', 'set'), names=['self', 'points'])
    n = smin(pts.num('len'), MAXV)
    ls = loops(r)
    if not c.ob('hull', 'passes', len(ls) == 6, 'expected 6 passes over the points, found %d' % len(ls)):
        return

    # weld
    arr0 = None
    for kk, (i, s, nx) in ls[0].mus.items():
        if nx is not None and not E.isnum(s) and not E.isbool(s):
            arr0 = Obj(i)
    if not c.ob('hull', 'weld buffer', arr0 is not None, 'no buffer of welded points'):
        return

    def step(v):
        inner = inner_loop(ls[0], {'j': k(0)}, lambda w: {'j': w['j'] + 1},
                           lambda w: (w['j'] < v['m']) & ~(dot(el(pts, v['i']) - el(v['ps'], w['j']), el(pts, v['i']) - el(v['ps'], w['j'])) < SLOP2), n=1)
        unique = ~(inner['j'] < v['m'])
        p = el(pts, v['i'])
        return {'i': v['i'] + 1, 'm': ite(unique, v['m'] + 1, v['m']), 'ps': {v['m']: both(unique, p, el(v['ps'], v['m']))}}
    w = expect_loop(c, 'hull', 'welding keeps the first of any two points closer than half a slop', ls[0], {'i': k(0), 'm': k(0), 'ps': arr0}, step, lambda v: v['i'] < n, res=r)
    if w is None:
        return
    ps, cnt = w['ps'], w['m']

    # right-most, then lowest
    def step(v):
        a, b = el(ps, v['i']), el(ps, v['best'])
        take = (v['x'] < a.x) | (a.x.eq(v['x']) & (a.y < b.y))
        return {'i': v['i'] + 1, 'best': ite(take, v['i'], v['best']), 'x': ite(take, a.x, v['x'])}
    w = expect_loop(c, 'hull', 'start at the right-most, then lowest point', ls[1], {'i': k(1), 'best': k(0), 'x': el(ps, k(0)).x}, step, lambda v: v['i'] < cnt, res=r, room=lambda v: v['i'] < MAXV)
    if w is None:
        return
    i0 = w['best']

    # gift wrapping
    arr0 = None
    for kk, (i, s, nx) in ls[2].mus.items():
        if nx is not None and not E.isnum(s) and not E.isbool(s):
            arr0 = Obj(i)
    if not c.ob('hull', 'hull buffer', arr0 is not None, 'no buffer of hull indices'):
        return
    last = {}

    def step(v):
        def istep(w_):
            a, b = el(ps, w_['e']) - el(ps, v['h']), el(ps, w_['j']) - el(ps, v['h'])
            cr = cross(a, b)
            take = w_['e'].eq(v['h']) | (cr < 0) | (cr.eq(0) & (dot(a, a) < dot(b, b)))
            return {'j': w_['j'] + 1, 'e': ite(take, w_['j'], w_['e'])}
        inner = inner_loop(ls[2], {'j': k(1), 'e': k(0)}, istep, lambda w_: w_['j'] < cnt, n=1)
        last['e'] = inner['e']
        return {'m': v['m'] + 1, 'h': inner['e'], 'hull': {v['m']: v['h']}}
    w = expect_loop(c, 'hull', 'gift wrapping takes the most clockwise, then farthest point', ls[2], {'m': k(0), 'h': i0, 'hull': arr0}, step, lambda v: ~last['e'].eq(i0), res=r)
    if w is None:
        return
    m, hull = w['m'] + 1, Obj(r.eng.update(w['hull'].n, (('i', w['m'].n),), w['h'].n))

    # copy in hull order
    def step(v):
        src = ps.vec(('i', E.like(r.eng.field(hull.n, ('i', v['i'].n)), E.ZERO)))
        return {'i': v['i'] + 1, 'vs': {v['i']: src}}
    start = [x for kk, x in ls[3].mus.items() if x[2] is not None and kk[0][0] == 'H']
    if not c.ob('hull', 'vertex pass', len(start) == 1, 'the copying pass should only change the vertices'):
        return
    w = expect_loop(c, 'hull', 'the vertices are the hull points in wrapping order', ls[3], {'i': k(0), 'vs': Obj(start[0][0])}, step, lambda v: v['i'] < m, res=r, room=lambda v: v['i'] < MAXV)
    if w is None:
        return
    vs = w['vs']

    # normals
    def step(v):
        b = both(v['i'] + 1 < m, el(vs, v['i'] + 1), el(vs, k(0)))
        e = b - el(vs, v['i'])
        nn = unit(V(e.y, -e.x))
        return {'i': v['i'] + 1, 'ns': {v['i']: nn}}
    start = [x for kk, x in ls[4].mus.items() if x[2] is not None and kk[0][0] == 'H']
    if not c.ob('hull', 'normal pass', len(start) == 1, 'the normal pass should only change the normals'):
        return
    w = expect_loop(c, 'hull', 'each normal is the unit outward normal of its edge', ls[4], {'i': k(0), 'ns': Obj(start[0][0])}, step, lambda v: v['i'] < m, res=r, room=lambda v: v['i'] < MAXV)
    if w is None:
        return
    ns = w['ns']

    # centroid
    def step(v):
        s0 = el(vs, k(0))
        a, b = el(vs, v['i']) - s0, both(v['i'] + 1 < m, el(vs, v['i'] + 1), el(vs, k(0))) - s0
        d = cross(a, b)
        return {'i': v['i'] + 1, 'area': v['area'] + d / 2, 'cx': v['cx'] + d / 6 * (a.x + b.x), 'cy': v['cy'] + d / 6 * (a.y + b.y)}
    w = expect_loop(c, 'hull', 'the centroid sums the triangle fan', ls[5], {'i': k(0), 'area': k(0), 'cx': k(0), 'cy': k(0)}, step, lambda v: v['i'] < m, res=r, room=lambda v: v['i'] < MAXV)
    if w is None:
        return
    s0 = el(vs, k(0))
    ok = ~(pts.num('len') < 3) & ~(MAXV < pts.num('len')) & ~(cnt < 3) & ~(m < 3)
    want = {'self.m_count': m, 'self.m_centroid.x': w['cx'] / w['area'] + s0.x, 'self.m_centroid.y': w['cy'] / w['area'] + s0.y}
    want['self.m_vertices'], want['self.m_normals'] = S(vs.n), S(ns.n)
    got = {}
    for kk, v_ in changes(r).items():
        got[kk] = v_
    for kk in sorted(set(got) | set(want)):
        if kk in want and kk in got:
            a, b = E.constrain(got[kk], ok.n), E.constrain(want[kk].n, ok.n)
            a = nolen(a)
            c.ob('hull', 'result ' + kk, same(a, b), 'code computes vs expected: ' + show_difference(a, b, 4))
        else:
            c.ob('hull', 'result ' + kk, False, 'changed unexpectedly' if kk in got else 'not set')
    # fewer than 3 or more than 8 points, or fewer than 3 distinct points, are rejected
    pn = panics(r)
    few = (pts.num('len') < 3) | (MAXV < pts.num('len'))
    c.ob('hull', 'rejects fewer than three or more than the maximum number of points', (few & ~pn).n == FALSE, 'accepted: ' + E.show((few & ~pn).n, 4))
    c.ob('hull', 'rejects degenerate point sets', (~few & ((cnt < 3) | (m < 3)) & ~pn).n == FALSE, 'accepted degenerate input')
    top = S(FALSE)
    for x in r.effects:
        if x.kind == 'panic' and str(x).startswith('panic@b2_assert'):
            top = top | S(x.guard)
    bad = top & ~(few | (cnt < 3) | (m < 3) | ~(EPS < w['area']))
    c.ob('hull', 'accepts every proper point set', bad.n == FALSE, 'rejected when ' + E.show(bad.n, 5)[:400])
