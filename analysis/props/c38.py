"""Distance between two shapes: proxies, simplex, closest features and the iteration that joins them."""
from ..spec import *
from ..spec import _elements
from .c26 import EPS
from .c28 import unit, both
from .c30 import at
from .worldlib import place

PX = 'b2_distance::B2distanceProxy::'
D = 'private::collision::b2_distance::'
SX = D + 'B2simplex::'
me, cache = sym('self'), sym('cache')


def v(i): return at(me, 'm_v', i)
def vert(o, i): return o.vec('m_vertices', ('i', nd(i)))


def moved(i, j):
    """vertex i := vertex j"""
    out = {}
    for f in ('w_a', 'w_b', 'w'):
        out['self.m_v.[%d].%s' % (i, f)] = v(j).vec(f)
    for f in ('index_a', 'index_b'):
        out['self.m_v.[%d].%s' % (i, f)] = v(j).num(f)
    return out


def pick(cases, field, old):
    """value of a field: cases = [(condition, {field: value})], tried in order."""
    out = old
    for cnd, vals in reversed(cases):
        new = vals.get(field, old)
        out = both(cnd, new, out) if isinstance(new, V) else ite(cnd, new, out)
    return out


def by_cases(cases):
    fs = []
    for _, vals in cases:
        fs += [f for f in vals if f not in fs]
    out = {}
    for f in fs:
        o = me
        for key in f.split('.')[1:]:
            o = o.at(('i', nd(k(int(key[1:-1]))))) if key[0] == '[' else o.at(key)
        vec = any(isinstance(vals.get(f), V) for _, vals in cases)
        out[f] = pick(cases, f, o.vec() if vec else o.num())
    return out


def proxies(c, P):
    px = me
    n = px.num('m_vertices', 'len')
    i = sym('index').num()
    d = sym('d').vec()
    method(c, 'proxy', P, PX + 'get_vertex_count', ['self'], n)
    method(c, 'proxy', P, PX + 'get_vertex', ['self', 'index'], vert(px, i), panic=~(i < n))
    for f in ('get_support', 'get_support_vertex'):
        r = summarise(c, P, PX + f, names=['self', 'd'])
        ls = loops(r)
        if not c.ob('proxy', f + ' is one pass', len(ls) == 1, '%d loops' % len(ls)):
            continue

        def step(w):
            s = dot(vert(px, w['i']), d)
            up = w['s'] < s
            return {'i': w['i'] + 1, 's': ite(up, s, w['s']), 'b': ite(up, w['i'], w['b'])}
        w = expect_loop(c, 'proxy', f + ' finds the first vertex farthest along the direction', ls[0], {'i': k(1), 's': dot(vert(px, k(0)), d), 'b': k(0)}, step, lambda w_: w_['i'] < n, res=r)
        if w is None:
            continue
        if f == 'get_support':
            c.ob('proxy', f + ' returns it', same(r.ret, w['b'].n), E.show(r.ret, 4))
        else:
            for q in 'xy':
                c.ob('proxy', f + ' returns it, ' + q, same(E.constrain(r.value(r.ret, (q,)), (~panics(r)).n), E.constrain(getattr(vert(px, w['b']), q).n, (~panics(r)).n)), E.show(r.ret, 4))
        expect_changes(c, 'proxy', f, r, {})


def simplex(c, P):
    rule = 'simplex'
    w1, w2, w3 = (v(i).vec('w') for i in range(3))
    # closest features
    e12 = w2 - w1
    p2, p1 = -dot(w1, e12), dot(w2, e12)
    one0 = {'self.m_v.[0].a': k(1), 'self.m_count': k(1)}

    def to_first(j):
        out = {'self.m_v.[%d].a' % j: k(1), 'self.m_count': k(1), 'self.m_v.[0].a': k(1)}
        out.update(moved(0, j))
        return out
    yes = S(TRUE)
    cases = [(~(k(0) < p2), one0), (~(k(0) < p1), to_first(1)), (yes, {'self.m_v.[0].a': p1 / (p1 + p2), 'self.m_v.[1].a': p2 / (p1 + p2), 'self.m_count': k(2)})]
    method(c, rule, P, SX + 'solve2', ['self'], want=by_cases(cases), panic=None)
    e13, e23 = w3 - w1, w3 - w2
    d12_1, d12_2 = dot(w2, e12), -dot(w1, e12)
    d13_1, d13_2 = dot(w3, e13), -dot(w1, e13)
    d23_1, d23_2 = dot(w3, e23), -dot(w2, e23)
    n = cross(e12, e13)
    t1, t2, t3 = n * cross(w2, w3), n * cross(w3, w1), n * cross(w1, w2)

    def pos(*a):
        out = yes
        for x in a:
            out = out & (k(0) < x)
        return out
    e13c = {'self.m_v.[0].a': d13_1 / (d13_1 + d13_2), 'self.m_v.[2].a': d13_2 / (d13_1 + d13_2), 'self.m_v.[1].a': d13_2 / (d13_1 + d13_2), 'self.m_count': k(2)}
    e13c.update(moved(1, 2))
    e23c = {'self.m_v.[1].a': d23_1 / (d23_1 + d23_2), 'self.m_v.[2].a': d23_2 / (d23_1 + d23_2), 'self.m_v.[0].a': d23_2 / (d23_1 + d23_2), 'self.m_count': k(2)}
    e23c.update(moved(0, 2))
    t = t1 + t2 + t3
    cases = [(~(k(0) < d12_2) & ~(k(0) < d13_2), one0),
             (pos(d12_1, d12_2) & ~(k(0) < t3), {'self.m_v.[0].a': d12_1 / (d12_1 + d12_2), 'self.m_v.[1].a': d12_2 / (d12_1 + d12_2), 'self.m_count': k(2)}),
             (pos(d13_1, d13_2) & ~(k(0) < t2), e13c),
             (~(k(0) < d12_1) & ~(k(0) < d23_2), to_first(1)),
             (~(k(0) < d13_1) & ~(k(0) < d23_1), to_first(2)),
             (pos(d23_1, d23_2) & ~(k(0) < t1), e23c),
             (yes, {'self.m_v.[0].a': t1 / t, 'self.m_v.[1].a': t2 / t, 'self.m_v.[2].a': t3 / t, 'self.m_count': k(3)})]
    method(c, rule, P, SX + 'solve3', ['self'], want=by_cases(cases))
    # readings for each number of vertices
    a = [v(i).num('a') for i in range(3)]

    def mix(f, n_):
        out = a[0] * v(0).vec(f) if n_ > 1 else v(0).vec(f)
        for i in range(1, n_):
            out = out + a[i] * v(i).vec(f)
        return out
    zero = V(k(0), k(0))
    sgn = cross(e12, -w1)
    turn = both(k(0) < sgn, V(-e12.y, e12.x), V(e12.y, -e12.x))
    metric = {1: k(0), 2: length(w1 - w2), 3: cross(e12, e13)}
    for n_ in (1, 2, 3):
        kw = dict(fix={'m_count': nd(k(n_))}, unroll=4)
        if n_ < 3:
            method(c, rule, P, SX + 'get_search_direction', ['self'], -w1 if n_ == 1 else turn, label='search direction, %d' % n_, **kw)
        method(c, rule, P, SX + 'get_closest_point', ['self'], {1: w1, 2: mix('w', 2), 3: zero}[n_], label='closest point, %d' % n_, **kw)
        method(c, rule, P, SX + 'get_metric', ['self'], metric[n_], label='metric, %d' % n_, **kw)
        pa = mix('w_a', n_)
        method(c, rule, P, SX + 'get_witness_points', ['self', 'pa', 'pb'], want={'pa': pa, 'pb': pa if n_ == 3 else mix('w_b', n_)}, label='witness points, %d' % n_, **kw)
        want = {'cache.metric': metric[n_], 'cache.count': k(n_)}
        for i in range(n_):
            for f in ('index_a', 'index_b'):
                want['cache.%s.[%d]' % (f, i)] = v(i).num(f)
        method(c, rule, P, SX + 'write_cache', ['self', 'cache'], want=want, label='write cache, %d' % n_, **kw)
    # warm start from the cache
    A, B, xa, xb = sym('pa'), sym('pb'), sym('xa').xf(), sym('xb').xf()
    for n_ in (0, 1, 2, 3):
        def fill(out, i, ia, ib, bary):
            wa, wb = mulx(xa, vert(A, ia)), mulx(xb, vert(B, ib))
            out.update({'w_a': wa, 'w_b': wb, 'w': wb - wa, 'a': bary, 'index_a': ia, 'index_b': ib})
            return out
        rows = [fill({}, i, cache.num('index_a', ('i', nd(k(i)))), cache.num('index_b', ('i', nd(k(i)))), k(0)) for i in range(n_)]
        first = fill({}, 0, k(0), k(0), k(1))
        flush = S(TRUE) if n_ == 0 else S(FALSE)
        if n_ > 1:
            m1 = cache.num('metric')
            W = [r['w'] for r in rows]
            m2 = length(W[0] - W[1]) if n_ == 2 else cross(W[1] - W[0], W[2] - W[0])
            flush = (m2 < m1 / 2) | (2 * m1 < m2) | (m2 < EPS)
        want = {'self.m_count': ite(flush, k(1), k(n_))}
        for i in range(max(n_, 1)):
            for f in first:
                if i > 0:
                    x = rows[i][f]
                elif n_ == 0:
                    x = first[f]
                else:
                    x = both(flush, first[f], rows[0][f]) if isinstance(first[f], V) else ite(flush, first[f], rows[0][f])
                want['self.m_v.[%d].%s' % (i, f)] = x
        rng = S(FALSE)
        na, nb = A.num('m_vertices', 'len'), B.num('m_vertices', 'len')
        for i in range(n_):
            rng = rng | ~(rows[i]['index_a'] < na) | ~(rows[i]['index_b'] < nb)
        rng = rng | (flush & (~(k(0) < na) | ~(k(0) < nb)))
        method(c, rule, P, SX + 'read_cache', ['self', 'cache', 'pa', 'xa', 'pb', 'xb'], want=want, panic=rng, label='read cache, %d' % n_, fix={'count': nd(k(n_))}, unroll=4)


DERIVED = 'shapes::b2rs_to_derived_shape::ToDerivedShape::as_derived'
UNBOX = 'std::boxed::box_assume_init_into_vec_unsafe'


def unbox(e, fr, st, args, tys, dt, line, fop):
    """vec![..]: the boxed array becomes the vector."""
    return e.load(st, args[0])


def length_of(r, v_):
    s = r.eng._slice(v_) if is_term(v_) else None
    return E.sub(s[2], s[1]) if s else r.value(v_, ('len',))


def shapes(c, P):
    """what a proxy takes from each kind of shape."""
    r = summarise(c, P, PX + 'set_shape', names=['self', 'shape', 'index'], hooks={DERIVED: pure('derived', ret='raw'), UNBOX: unbox})
    sh = Obj(E.app('derived', sym('shape').ptr()))
    idx = sym('index').num()
    ch = changes(r)
    got = ch.get('self.m_vertices')
    if not c.ob('proxy', 'set_shape stores the vertices', got is not None and 'self.m_radius' in ch, 'changes %s' % sorted(ch)):
        return
    circle, edge, poly, chain = (sh.at(('d', 'As' + n), '0') for n in ('Circle', 'Edge', 'Polygon', 'Chain'))
    j, m = sym('j').num(), chain.num('m_vertices', 'len')
    after = both(idx + 1 < m, vert(chain, idx + 1), vert(chain, k(0)))
    ok = ~panics(r)
    for kind, (name, o, n, elems) in enumerate((('circle', circle, k(1), [(k(0), circle.vec('m_p'))]),
                                                ('edge', edge, k(2), [(k(0), edge.vec('m_vertex1')), (k(1), edge.vec('m_vertex2'))]),
                                                ('polygon', poly, poly.num('m_count'), [(j, vert(poly, j))]),
                                                ('chain', chain, k(2), [(k(0), vert(chain, idx)), (k(1), after)]))):
        u = sh.is_(kind, 4)
        bad = S(FALSE)
        for x, _ in r.flat(kinds=('panic',)):
            if 'PointerDereference' not in str(x):
                bad = bad | S(x.guard)
        want = (u & ~(idx < m)) if kind == 3 else S(FALSE)
        c.ob('proxy', 'child %s: refused exactly when the child does not exist' % name, (bad & u).n == want.n, 'fails when ' + E.show((bad & u).n, 4))
        u = u & ok
        vs = E.constrain(got, u.n)
        c.ob('proxy', 'child %s: number of vertices' % name, same(length_of(r, vs), n.n), E.show(length_of(r, vs), 4))
        for i, w in elems:
            for q in 'xy':
                g, y = E.constrain(r.value(vs, (('i', nd(i)), q)), u.n), E.constrain(getattr(w, q).n, u.n)
                c.ob('proxy', 'child %s: vertex %s %s' % (name, E.show(nd(i)), q), same(g, y), show_difference(g, y) if not same(g, y) else '')
        g = E.constrain(ch['self.m_radius'], u.n)
        c.ob('proxy', 'child %s: radius' % name, same(g, o.num('base', 'm_radius').n), E.show(g, 4))
    r = summarise(c, P, PX + 'set_vertices', names=['self', 'v', 'r'])
    ch = changes(r)
    got = ch.get('self.m_vertices')
    if c.ob('proxy', 'set_vertices stores the vertices', got is not None, sorted(ch)):
        for q in 'xy':
            g = r.value(got, (('i', nd(j)), q))
            c.ob('proxy', 'set_vertices: vertex ' + q, same(g, sym('v').num(('i', nd(j)), q).n), E.show(g, 4))
        c.ob('proxy', 'set_vertices: count', same(length_of(r, got), sym('v').num('len').n), E.show(length_of(r, got), 4))
        c.ob('proxy', 'set_vertices: radius', same(ch.get('self.m_radius', got), sym('r').num().n), '')
    no_panic(c, 'proxy', 'set_vertices', r)


def outs(name, which):
    """hook: output arguments receive distinct uninterpreted values."""
    def h(e, fr, st, args, tys, dt, line, fop):
        from ..engine import Effect, UNIT
        e.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=list(args), ret=None, mem=dict(st.mem), argtys=tys, info={'pure': True}))
        for i in which:
            for q in 'xy':
                e.store(st, e.extend(args[i], q), E.numapp('%s.%d.%s' % (name, i, q)), fr, line)
        return UNIT
    return h


def among(x, values=(1, 2, 3), tests=(1, 2, 3)):
    """x is one of the values (spelled out for each comparison, the analysis knows no arithmetic)."""
    out = S(FALSE)
    for j in values:
        u = S(TRUE)
        for t in tests:
            u = u & ((x < t) if j < t else ~(x < t)) & (x.eq(t) if j == t else ~x.eq(t))
        out = out | u
    return out


def driver(c, P):
    rule = 'iterate'
    F = {'m_count': 'num', 'm_v': 'raw'}
    H = {SX + 'solve2': pure('solve2', outs={0: F}), SX + 'solve3': pure('solve3', outs={0: F}), SX + 'read_cache': pure('read', outs={0: F}),
         SX + 'get_search_direction': pure('dir', ret='vec'), SX + 'get_witness_points': outs('wit', (1, 2)),
         SX + 'write_cache': pure('write', outs={1: {'metric': 'num', 'count': 'num'}}),
         PX + 'get_support': pure('support', ret='num'), PX + 'get_vertex': pure('vertex', ret='vec')}
    r = summarise(c, P, 'b2_distance::b2_distance_fn', names=['out', 'cache', 'in'], hooks=H)
    e = r.eng
    inp = sym('in')
    pa, pb = place(inp, 'proxy_a'), place(inp, 'proxy_b')
    ls = loops(r)
    rd = [x for x, _ in r.flat(kinds=('call',)) if x.name == 'read']
    if not c.ob(rule, 'one iteration, warm started once', len(ls) == 1 and len(rd) == 1 and rd[0].guard == TRUE, '%d loops, %d warm starts' % (len(ls), len(rd))):
        return
    L = ls[0]
    sp = rd[0].args[0]
    wantargs = [sym('cache').ptr(), pa, None, pb, None]
    c.ob(rule, 'warm start from the cache and the two proxies', all(w is None or g == w for g, w in zip(rd[0].args[1:], wantargs)), [E.show(x, 3) for x in rd[0].args])
    for i, f in ((3, 'transform_a'), (5, 'transform_b')):
        for path in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
            c.ob(rule, 'warm start in ' + '.'.join((f,) + path), same(r.value(rd[0].args[i], path), inp.num(f, *path).n), E.show(rd[0].args[i], 3))
    ins = [rd[0].args[i] for i in range(1, 6)]

    def sub(name):
        return [x for x in L.sub if x.kind == 'call' and x.name == name]
    mu = {}
    for kk, (i, s_, n_) in L.mus.items():
        if i == E.numapp('read.m_count', *ins):
            mu['n'] = (s_, n_)
        elif i == E.app('read.m_v', *ins):
            mu['v'] = (s_, n_)
        elif i == E.ZERO:
            mu['iter'] = (s_, n_)
    if not c.ob(rule, 'the iteration carries the simplex and a count', len(mu) == 3, [E.show(x[0], 2) for x in L.mus.values()]):
        return
    n, it = S(mu['n'][0]), S(mu['iter'][0])
    ar = Obj(payload(mu['v'][0])[1] if payload(mu['v'][0])[0] == 'upd' else mu['v'][0])
    is2, is3 = n.eq(2), n.eq(3)
    room = among(n) & among(pure_num('solve2.m_count')) & among(pure_num('solve3.m_count')) & (it < 20)
    m = ite(is2, pure_num('solve2.m_count'), ite(is3, pure_num('solve3.m_count'), n))
    d = pure_vec('dir', sp)
    # remembering the vertices before they are reduced, finding a repeated support point
    subs = [Loop(x) for x in L.sub if x.kind == 'loop']
    if not c.ob(rule, 'previous support points are remembered, then compared', len(subs) == 2, '%d nested loops' % len(subs)):
        return
    saved = {}

    def copy(w):
        for kk, (i, s_, n_) in subs[0].mus.items():
            if E.isnum(s_):
                continue
            x = e.field(n_, ('i', w['i'].n))
            for f in ('index_a', 'index_b'):
                if same(x, Obj(ar.n).num(('i', w['i'].n), f).n):
                    saved[f] = Obj(payload(s_)[1] if payload(s_)[0] == 'upd' else s_)
        if len(saved) != 2:
            raise Mismatch('the indices are not saved')
        return {'i': w['i'] + 1}
    probs = match_loop(restrict(subs[0], room), {'i': k(0)}, copy, lambda w: (w['i'] < n) & room, room=lambda w: room)[1]
    if not c.ob(rule, 'both indices of every vertex are remembered', not probs, '; '.join(probs)[:600]):
        return
    qa, qb = inp.xf('transform_a'), inp.xf('transform_b')
    vec = lambda x: term(('agg', 'b2_math::B2vec2', None, (('x', x.x.n), ('y', x.y.n))))
    ia, ib = pure_num('support', pa, vec(mulqT(qa.q, -d))), pure_num('support', pb, vec(mulqT(qb.q, d)))
    wa, wb = mulx(qa, pure_vec('vertex', pa, ia.n)), mulx(qb, pure_vec('vertex', pb, ib.n))
    go = room & ~m.eq(3) & ~(dot(d, d) < EPS * EPS)
    rep = lambda w: saved['index_a'].num(('i', w['i'].n)).eq(ia) & saved['index_b'].num(('i', w['i'].n)).eq(ib)
    rr, probs = match_loop(restrict(subs[1], go), {'i': k(0)}, lambda w: {'i': w['i'] + 1}, lambda w: go & (w['i'] < n) & ~rep(w), room=lambda w: go)
    if not c.ob(rule, 'a repeated pair of support points is recognised', not probs, '; '.join(probs)[:900]):
        return
    end = ~(rr['i'] < n)
    back = S(L.e.info['back_pc'])
    c.ob(rule, 'continues exactly while there is progress', E.constrain(back.n, room.n) == E.constrain((go & end).n, room.n) and (back & ~(it < 20)).n == FALSE,
         'code: %s expected: %s' % (E.show(E.constrain(back.n, room.n), 5)[:500], E.show(E.constrain((go & end).n, room.n), 5)[:500]))
    g = back & room
    c.ob(rule, 'one more vertex', same(E.constrain(mu['n'][1], g.n), E.constrain((m + 1).n, g.n)), E.show(mu['n'][1], 3))
    c.ob(rule, 'iterations are counted', same(E.constrain(mu['iter'][1], g.n), E.constrain((it + 1).n, g.n)), E.show(mu['iter'][1], 3))
    for nm, u, base in (('1', n.eq(1), ar), ('2', is2, Obj(E.app('solve2.m_v'))), ('3', is3, Obj(E.app('solve3.m_v')))):
        u = u & g
        probs = _elements(r, nolen(E.constrain(mu['v'][1], u.n)), base, {S(E.constrain(m.n, u.n)): {'index_a': ia, 'index_b': ib, 'w_a': wa, 'w_b': wb, 'w': wb - wa}}, u)
        c.ob(rule, 'the new vertex is the support point of each shape, from %s' % nm, not probs, '; '.join(probs)[:700])
    for nm, cnd in (('solve2', is2), ('solve3', is3)):
        xs = sub(nm)
        gd = S(FALSE)
        for x in xs:
            gd = gd | S(x.guard)
        c.ob(rule, nm + ' reduces the simplex of that size', xs and all(x.args[0] == sp for x in xs) and (gd & room).n == (cnd & room).n, E.show(gd.n, 4))
    xs = sub('dir')
    gd = S(FALSE)
    for x in xs:
        gd = gd | S(x.guard)
        u = room & S(x.guard)
        c.ob(rule, 'the direction is that of the reduced simplex', x.args[0] == sp and same(E.constrain(r.value(sp, ('m_count',), mem=x.mem), u.n), E.constrain(m.n, u.n)), E.show(x.args[0], 3))
    c.ob(rule, 'a direction is taken', len(xs) >= 1 and (gd & room).n == (room & ~m.eq(3)).n, E.show(gd.n, 4))
    # the result
    room2 = room | ~(it < 20)
    after = [x for x in r.effects if x.kind == 'call' and x.name in ('wit', 'write')]
    if not c.ob(rule, 'one result', sorted(x.name for x in after) == ['wit', 'write'], [x.name for x in after]):
        return
    count = ite(it < 20, m, n)
    for x in after:
        u = room2 & S(x.guard)
        c.ob(rule, '%s of the final simplex' % x.name, x.args[0] == sp and same(E.constrain(r.value(sp, ('m_count',), mem=x.mem), u.n), E.constrain(count.n, u.n)), E.show(r.value(sp, ('m_count',), mem=x.mem), 4))
        for nm, uu, base in (('1', n.eq(1), ar), ('2', is2, Obj(E.app('solve2.m_v'))), ('3', is3, Obj(E.app('solve3.m_v')))):
            # only the element past the end may differ
            w = u & uu & (it < 20)
            probs = _elements(r, nolen(E.constrain(r.value(sp, ('m_v',), mem=x.mem), w.n)), base, {S(E.constrain(m.n, w.n)): {}}, w)
            c.ob(rule, '%s keeps the vertices in use, from %s' % (x.name, nm), not probs and w.n != FALSE, '; '.join(probs)[:300])
    c.ob(rule, 'the cache receives the result', [x for x in after if x.name == 'write'][0].args[1] == sym('cache').ptr(), '')
    pt = [V(S(E.numapp('wit.%d.x' % i)), S(E.numapp('wit.%d.y' % i))) for i in (1, 2)]
    dist = length(pt[0] - pt[1])
    ra, rb = inp.num('proxy_a', 'm_radius'), inp.num('proxy_b', 'm_radius')
    rad = inp.bool('use_radii')
    far = (ra + rb < dist) & (EPS < dist)
    nrm = unit(pt[1] - pt[0])
    mid = V((pt[0].x + pt[1].x) / 2, (pt[0].y + pt[1].y) / 2)
    wr = [x for x in after if x.name == 'write'][0]
    want = {'out.distance': ite(rad, ite(far, dist - (ra + rb), k(0)), dist), 'out.iterations': ite(go, it + 1, it),
            'out.point_a': both(rad, both(far, pt[0] + ra * nrm, mid), pt[0]), 'out.point_b': both(rad, both(far, pt[1] - rb * nrm, mid), pt[1]),
            'cache.metric': pure_num('write.metric', sp), 'cache.count': pure_num('write.count', sp)}
    expect_changes(c, rule, 'distance', r, want, under=room2 & S(wr.guard))


def overlap(c, P):
    rule = 'overlap'
    H = {PX + 'set_shape': pure('set', outs={0: {'m_vertices': 'raw', 'm_radius': 'num'}}),
         'b2_distance::b2_distance_fn': pure('distance', outs={0: {'distance': 'num', 'point_a': 'vec', 'point_b': 'vec', 'iterations': 'num'}})}
    r = summarise(c, P, 'b2_collision::b2_test_overlap_shapes', names=['sa', 'ia', 'sb', 'ib', 'xa', 'xb'], hooks=H)
    calls = [x for x, _ in r.flat(kinds=('call',)) if x.name == 'distance']
    if not c.ob(rule, 'the distance is computed once', len(calls) == 1 and calls[0].guard == TRUE, len(calls)):
        return
    x = calls[0]
    val = lambda i, *p: r.value(x.args[i], p, mem=x.mem)
    for p, sh, ix, xf in (('proxy_a', 'sa', 'ia', 'transform_a'), ('proxy_b', 'sb', 'ib', 'transform_b')):
        ins = None
        for y, _ in r.flat(kinds=('call',)):
            if y.name == 'set' and payload(y.args[0]) == payload(r.eng.extend(x.args[2], p)):
                ins = y.args[1:]
        if not c.ob(rule, p + ' is filled from its shape', ins is not None and E.show(ins[0], 9) == E.show(sym(sh).ptr(), 9) and same(ins[1], sym(ix).num().n), ins and [E.show(i, 4) for i in ins]):
            continue
        c.ob(rule, p + ' radius is kept', same(val(2, p, 'm_radius'), E.numapp('set.m_radius', *ins)), E.show(val(2, p, 'm_radius'), 4))
        c.ob(rule, p + ' vertices are kept', val(2, p, 'm_vertices') == E.app('set.m_vertices', *ins), E.show(val(2, p, 'm_vertices'), 4))
        for f in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
            c.ob(rule, '%s placement %s.%s' % ((p,) + f), same(val(2, xf, *f), sym('xa' if p[-1] == 'a' else 'xb').num(*f).n), E.show(val(2, xf, *f), 4))
    c.ob(rule, 'radii count', val(2, 'use_radii') == TRUE, E.show(val(2, 'use_radii'), 3))
    c.ob(rule, 'nothing is remembered', val(1, 'count') == E.ZERO, E.show(val(1, 'count'), 3))
    ins = [a for i, a in enumerate(x.args) if i]
    want = pure_num('distance.distance', *ins) < EPS * 10
    c.ob(rule, 'overlap is a distance below the tolerance', same(r.ret, want.n), E.show(r.ret, 4))
    no_panic(c, rule, 'overlap test', r)


def check(c):
    P = c.P
    c.rule('proxy', 'a distance proxy holds the vertices and radius of its shape and finds its farthest vertex')
    c.rule('simplex', 'the simplex of support points is reduced to its feature closest to the origin, and remembered between calls')
    c.rule('iterate', 'support points are added until none is new, and the distance and closest points are those of the final simplex')
    c.rule('overlap', 'two shapes overlap exactly when their distance, radii included, is below the tolerance')
    proxies(c, P)
    shapes(c, P)
    simplex(c, P)
    driver(c, P)
    overlap(c, P)
