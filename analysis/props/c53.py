"""Time of impact of two moving shapes: separating axis, its separation over time, and the search for the first contact."""
from ..spec import *
from .c26 import EPS, PI
from .c28 import unit, both
from .c38 import PX, vert
from .jointlib import SLOP
from .worldlib import place

SF = "private::collision::b2_time_of_impact::B2separationFunction::<'a>::"
SWEEP = (('local_center', 'x'), ('local_center', 'y'), ('c0', 'x'), ('c0', 'y'), ('c', 'x'), ('c', 'y'), ('a0',), ('a',), ('alpha0',))
POINTS, FACE_A, FACE_B = 0, 1, 2
STATES = ('EUnknown', 'EFailed', 'EOverlapped', 'ETouching', 'ESeparated')


def placed(e, fr, st, args, tys, dt, line, fop):
    """hook: placement of a sweep at a time, a function of the sweep's contents and the time."""
    from ..engine import UNIT

    def get(v, path):
        if is_term(v) and payload(v)[0] == 'ptr':
            for key in path:
                v = e.extend(v, key)
            return e.load(st, v)
        for key in path:
            v = e.field(v, key)
        return v
    ins = [e.coerce_num(get(args[0], p)) for p in SWEEP] + [args[2]]
    for p in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
        ptr = args[1]
        for key in p:
            ptr = e.extend(ptr, key)
        e.store(st, ptr, E.numapp('placed.' + '.'.join(p), *ins), fr, line)
    return UNIT


PLACE = {'b2_math::b2_sweep_get_transform': placed, 'b2_math::B2Sweep::get_transform': placed}


class Placed:
    """specification side of the same thing."""

    def __init__(self, sweep, t):
        ins = [nd(x) for x in sweep] + [nd(t)]
        f = lambda s: S(E.numapp('placed.' + s, *ins))
        self.x = X(V(f('p.x'), f('p.y')), Q(f('q.s'), f('q.c')))


def sweep_of(o): return [o.num(*p) for p in SWEEP]


def seps(axis, lp, pa, pb, xa, xb):
    """separation of two local points for each kind of axis."""
    wa, wb = mulx(xa, pa), mulx(xb, pb)
    na, nb = mulq(xa.q, axis), mulq(xb.q, axis)
    return {POINTS: dot(wb - wa, axis), FACE_A: dot(wb - mulx(xa, lp), na), FACE_B: dot(wa - mulx(xb, lp), nb)}


def axis(c, P):
    rule = 'axis'
    cache, A, B = sym('cache'), sym('pa'), sym('pb')
    t = sym('t').num()
    sa, sb = sym('sa'), sym('sb')
    xa, xb = Placed(sweep_of(sa), t).x, Placed(sweep_of(sb), t).x
    ix = lambda f, i: cache.num(f, ('i', nd(k(i))))
    zero = V(k(0), k(0))
    for n in (1, 2):
        r = summarise(c, P, SF + 'initialize', names=['cache', 'pa', 'sa', 'pb', 'sb', 't', 'sep'], hooks=PLACE, fix={'count': nd(k(n))}, unroll=4)
        a = [vert(A, ix('index_a', i)) for i in range(2)]
        b = [vert(B, ix('index_b', i)) for i in range(2)]
        if n == 1:
            d = mulx(xb, b[0]) - mulx(xa, a[0])
            cases = [('points', S(TRUE), POINTS, unit(d), zero, ite(length(d) < EPS, k(0), length(d)))]
        else:
            one = ix('index_a', 0).eq(ix('index_a', 1))
            cases = []
            for nm, u, kind, (p, q), other in (('face of the second', one, FACE_B, b, a[0]), ('face of the first', ~one, FACE_A, a, b[0])):
                e_ = q - p
                ax = unit(V(e_.y, -e_.x))
                lp = V((p.x + q.x) / 2, (p.y + q.y) / 2)
                s = seps(ax, lp, other, other, xa, xb)[kind]
                cases.append((nm, u, kind, both(s < 0, -ax, ax), lp, ite(s < 0, -s, s)))
        ok = ~panics(r)
        for nm, u, kind, ax, lp, s in cases:
            u = u & ok
            lab = 'axis by ' + nm
            if not c.ob(rule, lab + ' is reachable', u.n != FALSE, 'never'):
                continue
            con = lambda x: E.constrain(x, u.n)
            ty = con(r.value(r.ret, ('m_type',)))
            c.ob(rule, lab + ': kind', is_term(ty) and payload(ty)[0] == 'agg' and payload(ty)[2] == ('EPoints', 'EFaceA', 'EFaceB')[kind], E.show(ty, 3))
            for q in 'xy':
                g, w = con(r.value(r.ret, ('m_axis', q))), con(getattr(ax, q).n)
                c.ob(rule, '%s: axis %s' % (lab, q), same(g, w), show_difference(g, w) if g != w else '')
                if kind != POINTS:
                    g, w = con(r.value(r.ret, ('m_local_point', q))), con(getattr(lp, q).n)
                    c.ob(rule, '%s: local point %s' % (lab, q), same(g, w), show_difference(g, w) if g != w else '')
            for f, o in (('m_sweep_a', sa), ('m_sweep_b', sb)):
                for p in SWEEP:
                    c.ob(rule, '%s: %s.%s' % (lab, f, '.'.join(p)), same(con(r.value(r.ret, (f,) + p)), o.num(*p).n), '')
            for f, o in (('m_proxy_a', A), ('m_proxy_b', B)):
                c.ob(rule, '%s: %s' % (lab, f), con(r.value(r.ret, (f,))) == o.ptr(), E.show(r.value(r.ret, (f,)), 3))
            expect_changes(c, rule, lab, r, {'sep': s}, under=u)
        na, nb = A.num('m_vertices', 'len'), B.num('m_vertices', 'len')
        miss = lambda i, f: ~(ix(f, i) < (na if f == 'index_a' else nb))
        if n == 1:
            bad = miss(0, 'index_a') | miss(0, 'index_b')
        else:
            bad = miss(0, 'index_a') | miss(0, 'index_b') | ite(one, miss(1, 'index_b'), miss(1, 'index_a'))
        c.ob(rule, 'axis from %d refuses only missing vertices' % n, panics(r).n == bad.n, E.show(panics(r).n, 5)[:300])
    for n in (0, 3):
        r = summarise(c, P, SF + 'initialize', names=['cache', 'pa', 'sa', 'pb', 'sb', 't', 'sep'], hooks=PLACE, fix={'count': nd(k(n))}, unroll=4)
        c.ob(rule, 'no axis from %d points' % n, panics(r).n == TRUE, E.show(panics(r).n, 4))


def separation(c, P):
    rule = 'separation'
    me, t = sym('self'), sym('t').num()
    A, B = me.at('m_proxy_a'), me.at('m_proxy_b')
    xa, xb = Placed(sweep_of(me.at('m_sweep_a')), t).x, Placed(sweep_of(me.at('m_sweep_b')), t).x
    ax, lp = me.vec('m_axis'), me.vec('m_local_point')
    ia, ib = sym('ia').num(), sym('ib').num()
    H = dict(PLACE)
    H[PX + 'get_vertex'] = pure('vertex', ret='vec')
    H[PX + 'get_support'] = pure('support', ret='num')
    pa, pb = A.ptr(), B.ptr()
    vec = lambda x: term(('agg', 'b2_math::B2vec2', None, (('x', x.x.n), ('y', x.y.n))))
    r = summarise(c, P, SF + 'evaluate', names=['self', 'ia', 'ib', 't'], hooks=H)
    s = seps(ax, lp, pure_vec('vertex', pa, ia.n), pure_vec('vertex', pb, ib.n), xa, xb)
    for kind in (POINTS, FACE_A, FACE_B):
        u = me.is_(kind, 3, 'm_type')
        g, w = E.constrain(r.ret, u.n), E.constrain(s[kind].n, u.n)
        c.ob(rule, 'separation of given vertices, kind %d' % kind, same(g, w), show_difference(g, w) if g != w else '')
    expect_changes(c, rule, 'separation of given vertices', r, {})
    no_panic(c, rule, 'separation of given vertices', r)
    r = summarise(c, P, SF + 'find_min_separation', names=['self', 'oa', 'ob', 't'], hooks=H)
    na, nb = mulq(xa.q, ax), mulq(xb.q, ax)
    sup = lambda p, d: pure_num('support', p, vec(d))
    got = {POINTS: (sup(pa, mulqT(xa.q, ax)), sup(pb, mulqT(xb.q, -ax))), FACE_A: (k(-1), sup(pb, mulqT(xb.q, -na))), FACE_B: (sup(pa, mulqT(xa.q, -nb)), k(-1))}
    for kind in (POINTS, FACE_A, FACE_B):
        u = me.is_(kind, 3, 'm_type')
        i, j = got[kind]
        s = seps(ax, lp, pure_vec('vertex', pa, i.n), pure_vec('vertex', pb, j.n), xa, xb)[kind]
        g, w = E.constrain(r.ret, u.n), E.constrain(s.n, u.n)
        c.ob(rule, 'deepest separation, kind %d' % kind, same(g, w), show_difference(g, w) if g != w else '')
        expect_changes(c, rule, 'deepest vertices, kind %d' % kind, r, {'oa': i, 'ob': j}, under=u)
    no_panic(c, rule, 'deepest separation', r)


def deepest(e, fr, st, args, tys, dt, line, fop):
    from ..engine import Effect
    e.effects.append(Effect('call', st.pc, fr.path, line, name='min', args=list(args), ret=None, mem=dict(st.mem), argtys=tys, info={'pure': True}))
    for i in (1, 2):
        e.store(st, args[i], E.numapp('min.%d' % i, args[0], args[3]), fr, line)
    return E.numapp('min', args[0], args[3])


def search(c, P):
    rule = 'search'
    H = dict(PLACE)
    H.update({'b2_distance::b2_distance_fn': pure('dist', outs={0: {'distance': 'num'}, 1: {'count': 'num', 'metric': 'num', 'index_a': 'raw', 'index_b': 'raw'}}),
              SF + 'initialize': pure('init', ret='raw', outs={6: {'': 'num'}}), SF + 'find_min_separation': deepest, SF + 'evaluate': pure('eval', ret='num')})
    r = summarise(c, P, 'b2_time_of_impact::b2_time_of_impact', names=['out', 'in'], hooks=H)
    inp = sym('in')
    ls = loops(r)
    if not c.ob(rule, 'one search', len(ls) == 1, '%d loops' % len(ls)):
        return
    L = ls[0]
    calls = {n: [x for x in L.sub if x.kind == 'call' and x.name == n] for n in ('dist', 'init')}
    two = [Loop(x) for x in L.sub if x.kind == 'loop']
    if not c.ob(rule, 'each round measures the distance and follows one axis', len(calls['dist']) == 1 and len(calls['init']) == 1 and len(two) == 1, ''):
        return
    dc, ic = calls['dist'][0], calls['init'][0]
    L2 = two[0]
    tmax = inp.num('t_max')
    R = inp.num('proxy_a', 'm_radius') + inp.num('proxy_b', 'm_radius')
    target, tol = smax(SLOP, R - 3 * SLOP), SLOP / 4
    t1 = S(ic.args[5])
    zeros = {kk: x for kk, x in L.mus.items() if x[0] == E.ZERO}
    m1 = [x for x in zeros.values() if x[1] == t1.n]
    if not c.ob(rule, 'the search starts at time zero', len(m1) == 1, E.show(t1.n, 3)):
        return
    # sweeps: whole turns removed
    val = lambda x, ptr, *p: r.value(ptr, p, mem=x.mem)
    sw = {}
    for s, arg in (('sweep_a', 2), ('sweep_b', 4)):
        o = inp.at(s)
        turn = 2 * PI * fn('floor', o.num('a0') / (2 * PI))
        sw[s] = [o.num(*p) - turn if p in (('a',), ('a0',)) else o.num(*p) for p in SWEEP]
        for p, w in zip(SWEEP, sw[s]):
            c.ob(rule, 'axis follows %s.%s' % (s, '.'.join(p)), same(val(ic, ic.args[arg], *p), w.n), E.show(val(ic, ic.args[arg], *p), 4))
    # distance at the current time, radii excluded
    for s, f, pr in (('sweep_a', 'transform_a', 'proxy_a'), ('sweep_b', 'transform_b', 'proxy_b')):
        x = Placed(sw[s], t1).x
        for p, w in ((('p', 'x'), x.p.x), (('p', 'y'), x.p.y), (('q', 's'), x.q.s), (('q', 'c'), x.q.c)):
            c.ob(rule, 'distance measured with %s.%s at the current time' % (f, '.'.join(p)), same(val(dc, dc.args[2], f, *p), w.n), E.show(val(dc, dc.args[2], f, *p), 4))
        c.ob(rule, 'distance measured between the given shapes: ' + pr, same(val(dc, dc.args[2], pr, 'm_radius'), inp.num(pr, 'm_radius').n)
             and all(same(r.value(val(dc, dc.args[2], pr, 'm_vertices'), (('i', nd(sym('j').num())), q)), inp.num(pr, 'm_vertices', ('i', nd(sym('j').num())), q).n) for q in 'xy'), E.show(val(dc, dc.args[2], pr), 4))
    c.ob(rule, 'radii are not counted in the distance', val(dc, dc.args[2], 'use_radii') == FALSE, E.show(val(dc, dc.args[2], 'use_radii'), 3))
    cnt = [x for x in L.mus.items() if x[0][0] == payload(dc.args[1])[1] and x[0][1] == ('count',)]
    c.ob(rule, 'the first round starts without memory, later ones with that of the round before', len(cnt) == 1 and cnt[0][1][0] == E.ZERO and val(dc, dc.args[1], 'count') == cnt[0][1][1] and ic.args[0] == dc.args[1] and
         cnt[0][1][2] is not None and same(E.constrain(cnt[0][1][2], L.e.info['back_pc']), E.numapp('dist.count', dc.args[2])), '')
    c.ob(rule, 'the axis is between the given shapes', ic.args[1] == place(inp, 'proxy_a') and ic.args[3] == place(inp, 'proxy_b'), [E.show(x, 3) for x in ic.args])
    D = pure_num('dist.distance', dc.args[2])
    over, near = ~(k(0) < D), D < target + tol
    go = ~over & ~near
    mc = [x for x in L2.sub if x.kind == 'call' and x.name == 'min']
    if not c.ob(rule, 'each push back looks for the deepest vertices once', len(mc) == 1, len(mc)):
        return
    fp = mc[0].args[0]
    fcn = E.app('init', *[a for i, a in enumerate(ic.args) if i != 6])
    c.ob(rule, 'the axis is the one just found', r.value(fp, (), mem=mc[0].mem) == fcn, E.show(r.value(fp, (), mem=mc[0].mem), 3))
    L3s = [Loop(x) for x in L2.sub if x.kind == 'loop']
    if not c.ob(rule, 'one root search per push back', len(L3s) == 1, len(L3s)):
        return
    out = {}

    def pieces(t2):
        s2 = pure_num('min', fp, t2.n)
        i, j = E.numapp('min.1', fp, t2.n), E.numapp('min.2', fp, t2.n)
        f = lambda t: pure_num('eval', fp, i, j, t.n)
        s1 = f(t1)
        return s2, s1, f

    def push(w):
        t2 = w['t2']
        s2, s1, f = pieces(t2)
        sep, reach = target + tol < s2, target - tol < s2
        fail, touch = s1 < target - tol, ~(target + tol < s1)
        out.update(sep=sep, reach=reach, fail=fail, touch=touch, t2=t2, n=w['n'])
        root = go & ~sep & ~reach & ~fail & ~touch

        def tries(v):
            odd = fn('BitAnd', k(1), v['c']).eq(1)
            t = ite(odd, v['a1'] + (target - v['s1']) * (v['a2'] - v['a1']) / (v['s2'] - v['s1']), (v['a1'] + v['a2']) / 2)
            s = f(t)
            return t, s, sabs(s - target) < tol

        def step(v):
            t, s, hit = tries(v)
            up = target < s
            return {'c': v['c'] + 1, 'a1': ite(up, t, v['a1']), 's1': ite(up, s, v['s1']), 'a2': ite(up, v['a2'], t), 's2': ite(up, v['s2'], s)}
        v, probs = match_loop(restrict(L3s[0], root), {'c': k(0), 'a1': t1, 'a2': t2, 's1': s1, 's2': s2}, step, lambda v: root & ~tries(v)[2] & ~v['c'].eq(49), room=lambda v: root)
        if probs:
            raise Mismatch('root search: ' + '; '.join(probs))
        t, s, hit = tries(v)
        out.update(hit=hit, c=v['c'], root=root)
        return {'t2': ite(hit, t, t2), 'n': w['n'] + 1}
    w2, probs = match_loop(restrict(L2, go), {'t2': tmax, 'n': k(0)}, push)
    if not c.ob(rule, 'push back and root search', not probs, '; '.join(probs)[:900]):
        return
    o = out
    done3 = o['hit'] | o['c'].eq(49)
    back2 = S(L2.e.info['back_pc'])
    more = o['root'] & ~o['n'].eq(7)
    c.ob(rule, 'pushes back until separated, reached, failed, touching or as often as a polygon has vertices', (back2 & done3).n == (more & done3).n, 'code: ' + E.show(back2.n, 5)[:300])
    stop2 = ite(o['root'], o['n'].eq(7) & done3, S(TRUE))
    it = [x for x in zeros.values() if x[2] is not None and x[2] == (S(x[1]) + 1).n]
    if not c.ob(rule, 'rounds are counted', len(it) == 1, len(it)):
        return
    it = S(it[0][1])
    ended = ite(o['sep'], S(TRUE), ~o['reach'] & (o['fail'] | o['touch']))
    u = go & stop2
    back = S(L.e.info['back_pc'])
    c.ob(rule, 'another round until there is a result or twenty were made', (back & u).n == (u & ~ended & ~it.eq(19)).n and (back & ~go).n == FALSE, 'code: ' + E.show(back.n, 5)[:300])
    nt1 = ite(~o['sep'] & o['reach'], o['t2'], t1)
    g = back & u
    c.ob(rule, 'time advances to where the axis is reached', same(E.constrain(m1[0][2], g.n), E.constrain(nt1.n, g.n)), E.show(m1[0][2], 5)[:300])
    # the answer
    failed = ~o['sep'] & ~o['reach'] & o['fail']
    touch = ~o['sep'] & ~o['reach'] & ~o['fail'] & o['touch']
    result = [(over, 'EOverlapped', k(0)), (near, 'ETouching', t1), (o['sep'], 'ESeparated', tmax), (failed, 'EFailed', t1), (touch, 'ETouching', t1), (S(TRUE), 'EFailed', nt1)]
    ch = changes(r)
    c.ob(rule, 'only the answer is written', sorted(ch) == ['out.state', 'out.t'], sorted(ch))
    rest = S(TRUE)
    for i, (cnd, st, t) in enumerate(result):
        u = rest & cnd & (S(TRUE) if i < 2 else stop2 & go) & (it.eq(19) if i == 5 else S(TRUE))
        rest = rest & ~cnd
        if not c.ob(rule, 'answer %d is possible' % i, u.n != FALSE, ''):
            continue
        g = E.constrain(ch.get('out.state', FALSE), u.n)
        c.ob(rule, 'answer %d: state' % i, is_term(g) and payload(g)[0] == 'agg' and payload(g)[2] == st, E.show(g, 4))
        g, w = E.constrain(ch.get('out.t', FALSE), u.n), E.constrain(t.n, u.n)
        c.ob(rule, 'answer %d: time' % i, same(g, w), show_difference(g, w) if g != w else '')
    no_panic(c, rule, 'search', r, allowed=~(tol < target))


def check(c):
    P = c.P
    c.rule('axis', 'the separating axis is the line between the closest vertices or the normal of the closest face, pointing apart')
    c.rule('separation', 'the separation at a time is that of the given or deepest vertices along the axis, with both shapes placed by their sweeps at that time')
    c.rule('search', 'conservative advancement: the state and time reported for each outcome, bounded rounds, push backs and root iterations')
    axis(c, P)
    separation(c, P)
    search(c, P)
