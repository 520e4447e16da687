"""Casting one shape along a translation against another."""
from ..spec import *
from ..spec import _elements
from .c28 import both
from .c38 import PX, SX, among, outs
from .jointlib import SLOP
from .worldlib import place


def normalised(e, fr, st, args, tys, dt, line, fop):
    """hook: normalising a vector in place, as a function of its components."""
    x, y = (e.load(st, e.extend(args[0], q)) for q in 'xy')
    for q in 'xy':
        e.store(st, e.extend(args[0], q), E.numapp('unit.' + q, x, y), fr, line)
    return E.numapp('unit.length', x, y)


def unit(v): return V(S(E.numapp('unit.x', v.x.n, v.y.n)), S(E.numapp('unit.y', v.x.n, v.y.n)))


def check(c):
    P = c.P
    rule = 'cast'
    c.rule(rule, 'the cast advances to the supporting plane of the difference of the shapes, reduces the simplex, and reports fraction, normal and point exactly when it comes within the target distance')
    F = {'m_count': 'num', 'm_v': 'raw'}
    H = {SX + 'solve2': pure('solve2', outs={0: F}), SX + 'solve3': pure('solve3', outs={0: F}), SX + 'get_closest_point': pure('closest', ret='vec'),
         SX + 'get_witness_points': outs('wit', (1, 2)), PX + 'get_support': pure('support', ret='num'), PX + 'get_vertex': pure('vertex', ret='vec'),
         'b2_math::B2vec2::normalize': normalised}
    r = summarise(c, P, 'b2_distance::b2_shape_cast', names=['out', 'in'], hooks=H)
    inp = sym('in')
    ls = loops(r)
    if not c.ob(rule, 'one iteration', len(ls) == 1, '%d loops' % len(ls)):
        return
    L = ls[0]
    cl = [x for x in L.sub if x.kind == 'call' and x.name == 'closest']
    if not c.ob(rule, 'one closest point per round', len(cl) == 1, len(cl)):
        return
    sp = cl[0].args[0]
    sup = [x for x, _ in r.flat(kinds=('call',)) if x.name == 'support']
    ptrs = {}
    for x in sup:
        ptrs.setdefault(E.show(x.args[0], 9).rsplit('.', 1)[-1], set()).add(x.args[0])
    if not c.ob(rule, 'support points of the two given shapes', sorted(ptrs) == ['proxy_a', 'proxy_b'] and all(len(v) == 1 for v in ptrs.values()), [E.show(x.args[0], 4) for x in sup]):
        return
    pa, pb = (list(ptrs[f])[0] for f in ('proxy_a', 'proxy_b'))
    xa, xb, T = inp.xf('transform_a'), inp.xf('transform_b'), inp.vec('translation_b')
    vec = lambda x: term(('agg', 'b2_math::B2vec2', None, (('x', x.x.n), ('y', x.y.n))))

    def support(v):
        ia, ib = pure_num('support', pa, vec(mulqT(xa.q, -v))), pure_num('support', pb, vec(mulqT(xb.q, v)))
        return ia, ib, mulx(xa, pure_vec('vertex', pa, ia.n)), mulx(xb, pure_vec('vertex', pb, ib.n))
    skin = 2 * SLOP
    ra, rb = smax(inp.num('proxy_a', 'm_radius'), skin), smax(inp.num('proxy_b', 'm_radius'), skin)
    sigma, tol = smax(skin, ra + rb - skin), SLOP / 2
    _, _, wa, wb = support(T)
    v0 = wa - wb
    cnt = [x for kk, x in L.mus.items() if kk == (payload(sp)[1], ('m_count',))]
    arr = [x for kk, x in L.mus.items() if kk == (payload(sp)[1], ('m_v',))]
    if not c.ob(rule, 'the simplex starts empty', len(cnt) == 1 and cnt[0][0] == E.ZERO and len(arr) == 1, ''):
        return
    n = S(cnt[0][1])
    ar = Obj(payload(arr[0][1])[1] if payload(arr[0][1])[0] == 'upd' else arr[0][1])
    room = among(n, (0, 1, 2), (0, 1, 2, 3)) & among(pure_num('solve2.m_count')) & among(pure_num('solve3.m_count'))
    parts = {}

    def step(w):
        v = V(w['vx'], w['vy'])
        ia, ib, wa, wb = support(v)
        p, u = wa - wb, unit(v)
        vp, vr = dot(u, p), dot(u, T)
        ahead = w['l'] * vr < vp - sigma
        miss = ahead & ~(k(0) < vr)
        lam = ite(ahead, (vp - sigma) / vr, w['l'])
        far = ahead & (k(1) < (vp - sigma) / vr)
        two, three = ~ahead & n.eq(1), ~ahead & n.eq(2)
        m = ite(two, pure_num('solve2.m_count'), ite(three, pure_num('solve3.m_count'), ite(ahead, k(1), n + 1)))
        parts.update(w=w, v=v, ia=ia, ib=ib, wa=wa, wb=wb, ahead=ahead, lam=lam, m=m, two=two, three=three,
                     head=(it < 20) & (tol < length(v) - sigma), lost=miss | far, over=m.eq(3))
        q = pure_vec('closest', sp)
        return {'l': lam, 'vx': q.x, 'vy': q.y, 'nx': ite(ahead, -u.x, w['nx']), 'ny': ite(ahead, -u.y, w['ny'])}
    named = {kk: x for kk, x in L.mus.items() if kk not in ((payload(sp)[1], ('m_count',)), (payload(sp)[1], ('m_v',)))}
    view = restrict(L, room)
    ts = [(kk, x) for kk, x in named.items() if kk[0][0] == 'L' and x[0] == E.ZERO and x[2] is not None and E.isnum(x[1]) and same(E.constrain(x[2], L.e.info['back_pc']), (S(x[1]) + 1).n)]
    if not c.ob(rule, 'rounds are counted', len(ts) == 1, len(ts)):
        return
    it = S(ts[0][1][1])
    view.mus = {kk: view.mus[kk] for kk in named if kk[0][0] == 'L' and kk != ts[0][0]}

    def cond(w):
        return room & parts['head'] & ~parts['lost'] & ~parts['over']
    w, probs = match_loop(view, {'l': k(0), 'vx': v0.x, 'vy': v0.y, 'nx': k(0), 'ny': k(0)}, step, cond, room=lambda w_: room)
    if not c.ob(rule, 'a round', not probs, '; '.join(probs)[:1200]):
        return
    step(w)
    q = parts
    back = S(L.e.info['back_pc']) & room
    c.ob(rule, 'the simplex keeps the reduced vertices', same(E.constrain(cnt[0][2], back.n), E.constrain(q['m'].n, back.n)), E.show(cnt[0][2], 4))
    x = cl[0]
    u = S(x.guard) & room
    c.ob(rule, 'the closest point is that of the reduced simplex', same(E.constrain(r.value(sp, ('m_count',), mem=x.mem), u.n), E.constrain(q['m'].n, u.n)), '')
    # the new vertex: reversed and shifted
    new = {'index_a': q['ib'], 'index_b': q['ia'], 'w_a': q['wb'] + q['lam'] * T, 'w_b': q['wa'], 'w': q['wa'] - q['wb'] - q['lam'] * T, 'a': k(1)}
    body = room & q['head'] & ~q['lost']
    for nm, u, i in (('solve2', q['two'], k(1)), ('solve3', q['three'], k(2))):
        xs = [x for x in L.sub if x.kind == 'call' and x.name == nm]
        gd = S(FALSE)
        for x in xs:
            gd = gd | S(x.guard)
            uu = S(x.guard) & u & room
            probs = _elements(r, nolen(E.constrain(r.value(sp, ('m_v',), mem=x.mem), uu.n)), ar, {S(E.constrain(n.n, uu.n)): new}, uu)
            c.ob(rule, '%s receives the new support point' % nm, x.args[0] == sp and not probs, '; '.join(probs)[:600])
            c.ob(rule, '%s receives its count' % nm, same(E.constrain(r.value(sp, ('m_count',), mem=x.mem), uu.n), E.constrain((n + 1).n, uu.n)), '')
        c.ob(rule, '%s reduces the simplex of that size' % nm, len(xs) >= 1 and (gd & room).n == (body & u).n, E.show(gd.n, 4)[:300])
    for nm, u, i in (('first', q['ahead'], k(0)), ('only', ~q['ahead'] & n.eq(0), n)):
        u = back & u
        probs = _elements(r, nolen(E.constrain(arr[0][2], u.n)), ar, {i: new}, u)
        c.ob(rule, 'the %s support point is kept as it is' % nm, not probs and u.n != FALSE, '; '.join(probs)[:600])
    for nm, cnd in (('solve2', q['two']), ('solve3', q['three'])):
        u = back & cnd
        g = E.constrain(arr[0][2], u.n)
        c.ob(rule, 'the vertices kept are those of ' + nm, nolen(g) == E.app(nm + '.m_v'), E.show(g, 4))
    # the answer
    v = q['v']
    hit = ~q['head'] & ~it.eq(0)
    nf = both(k(0) < dot(v, v), unit(-v), V(w['nx'], w['ny']))
    pt = V(S(E.numapp('wit.2.x')), S(E.numapp('wit.2.y')))
    wt = [x for x in r.effects if x.kind == 'call' and x.name == 'wit']
    wg = S(FALSE)
    for x in wt:
        wg = wg | S(x.guard)
    c.ob(rule, 'the point is a witness of the final simplex', len(wt) == 1 and wt[0].args[0] == sp, len(wt))
    oi = [x for kk, x in L.mus.items() if kk[0][0] == 'H' and kk[1] == ('iterations',)]
    if not c.ob(rule, 'every round is reported', len(oi) == 1 and oi[0][0] == E.ZERO and same(E.constrain(oi[0][2], back.n), (S(oi[0][1]) + 1).n), [E.show(x[2], 3) for x in oi]):
        return
    oi = S(oi[0][1])
    cases = (('nothing after no round', ~q['head'] & it.eq(0), S(FALSE), {'iterations': oi}), ('found', hit, S(TRUE), {'lambda': w['l'], 'normal': nf, 'point': pt + ra * nf, 'iterations': it}),
             ('moving apart or beyond the translation', q['head'] & q['lost'], S(FALSE), {'iterations': oi + 1}), ('overlapping', q['head'] & ~q['lost'] & q['over'], S(FALSE), {'iterations': oi + 1}))
    for nm, u, ret, want in cases:
        u = u & room
        if not c.ob(rule, nm + ' is possible', u.n != FALSE, ''):
            continue
        c.ob(rule, nm + ': answer', E.constrain(r.ret, u.n) == ret.n, E.show(E.constrain(r.ret, u.n), 4))
        full = {'lambda': k(1), 'normal': V(k(0), k(0)), 'point': V(k(0), k(0))}
        full.update(want)
        expect_changes(c, rule, nm, r, {'out.' + f: x for f, x in full.items()}, under=u)
    bad = panics(r) & room
    c.ob(rule, 'never fails with a simplex of fewer than three vertices', bad.n == FALSE, E.show(bad.n, 4)[:300])
