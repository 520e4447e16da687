"""Queries and ray casts: every candidate is visited, and the callback's answer is obeyed."""
from ..spec import *
from .worldlib import *
from .c03 import k_
from .c18 import every, deep_panics
from ..models import MODELS, EMPTY_VEC

GS = 'b2_growable_stack::B2growableStack::<T, N>::'
VEC = 'std::vec::Vec::<T, A>::'


def stack_hooks():
    """the growable stack behaves as a list (decided separately): model it as one."""
    def new(e, fr, st, args, tys, dt, line, fop):
        return EMPTY_VEC

    def push(e, fr, st, args, tys, dt, line, fop):
        return MODELS[VEC + 'push'](e, fr, st, [args[0], e.load(st, args[1])], tys, dt, line, ())

    def pop(e, fr, st, args, tys, dt, line, fop):
        n = e.arr_len(st, args[0])
        el = e.coerce_num(e.load(st, e.extend(args[0], ('i', E.sub(n, E.ONE)))))
        MODELS[VEC + 'pop'](e, fr, st, args, tys, dt, line, ())
        return el

    def count(e, fr, st, args, tys, dt, line, fop):
        return e.arr_len(st, args[0])
    return {GS + 'new': new, GS + 'push': push, GS + 'pop': pop, GS + 'get_count': count}


def cast(e, fr, st, args, tys, dt, line, fop):
    """a shape's own ray cast (decided elsewhere): noted, with an arbitrary answer."""
    v = record('cast', lambda e, a, n: sym('hit', n).bool().n)(e, fr, st, args, tys, dt, line, fop)
    n = sum(1 for x in e.effects if x.kind == 'call' and x.name == 'cast')
    o = sym('out', n - 1)
    e.store(st, args[1], term(('agg', 'b2_collision::B2rayCastOutput', 'B2rayCastOutput', (('normal', vec(o, 'normal')), ('fraction', o.num('fraction').n)))))
    return v


def vec(o, key):
    return term(('agg', 'b2_math::B2vec2', 'B2vec2', (('x', o.num(key, 'x').n), ('y', o.num(key, 'y').n))))


def box(o, *keys):
    return [V(o.num(*keys, b, 'x'), o.num(*keys, b, 'y')) for b in ('lower_bound', 'upper_bound')]


def overlap(a, b):
    return ~(b[0].x > a[1].x) & ~(b[0].y > a[1].y) & ~(a[0].x > b[1].x) & ~(a[0].y > b[1].y)


def pending(c, rule, lab, r, root):
    """the one search loop over a list of pending nodes that starts with the root: (loop, node id, entry condition of an iteration)."""
    ls = loops(r)
    if not c.ob(rule, lab + ': one search', len(ls) == 1, '%d loops' % len(ls)):
        return
    L = ls[0]
    for key, (i, s, n) in L.mus.items():
        p = payload(i) if is_term(i) else None
        if n is not None and p and p[0] == 'agg' and p[1] == 'vec':
            rows = [(kk, v) for kk, v in p[3] if kk != 'len']
            if c.ob(rule, lab + ': the search starts at the root alone', [kk for kk, _ in rows] == [('i', E.ZERO)] and number(rows[0][1]) == root.num().n, E.show(i, 4)[:200]):
                ln = S(E.like(Obj(s).at('len').n, E.ZERO))
                top = S(E.like(Obj(term(('proj', s, ('i', E.sub(ln.n, E.ONE))))).n, E.ZERO))
                return L, key, top, ln > S(E.ZERO)
    c.ob(rule, lab + ': pending nodes are kept in a list', False, str(list(L.mus)))


def number(v):
    return E.like(v, E.ZERO) if is_term(v) and not E.isnum(v) else v


def pushes(c, rule, lab, es, want, u):
    tot = [FALSE] * len(want)
    left = []
    for x in every(es):
        if x.kind == 'push' and E.AND(x.guard, u.n) != FALSE:
            for i, (v, cond) in enumerate(want):
                if E.constrain(number(x.args[1]), E.AND(x.guard, u.n)) == E.constrain(nd(v), E.AND(x.guard, u.n)):
                    tot[i] = E.OR(tot[i], E.AND(x.guard, u.n))
                    break
            else:
                left.append(x)
    for i, (v, cond) in enumerate(want):
        c.ob(rule, '%s: %s becomes pending' % (lab, ('the first child', 'the second child')[i]), tot[i] == E.AND(cond.n, u.n), 'when ' + E.show(tot[i], 4)[:300])
    c.ob(rule, lab + ': nothing else becomes pending', not left, str([E.show(x.args[1], 3)[:100] for x in left]))


def stops(c, rule, lab, L, live, fine, answer):
    """an iteration is the last one exactly when nothing is pending or the answer says stop."""
    go = E.AND(L.e.info['back_pc'], fine.n)
    want = E.AND(E.AND(live.n, E.NOT(answer.n)), fine.n)
    c.ob(rule, lab + ': goes on until nothing is pending or the callback stops it', go == want, 'goes on when %s' % E.show(go, 4)[:300])


def query(c, P, path, names, tree, lab, report):
    r = summarise(c, P, path, names=names, hooks=stack_hooks())
    k = pending(c, 'query', lab, r, tree.at('m_root'))
    if not k:
        return
    L, key, top, live = k
    nd_ = Obj(term(('proj', tree.at('m_nodes').n, ('i', top.n))))
    fine = ~deep_panics(L.sub)
    u = live & fine
    hit = ~top.eq(S(E.const(-1))) & overlap(box(nd_, 'aabb'), box(sym('box')))
    leaf = nd_.num('child1').eq(S(E.const(-1)))
    expect_calls(c, 'query', lab, L.sub, '<callback>', [(report(nd_, top), hit & leaf)], under=u)
    cs = [x for x in every(L.sub) if x.kind == 'call']
    c.ob('query', lab + ': one place asks the callback', len(cs) == 1, str([x.name for x in cs]))
    if cs:
        stops(c, 'query', lab, L, live, fine, hit & leaf & ~S(cs[0].ret))
    pushes(c, 'query', lab, L.sub, [(nd_.num('child1'), hit & ~leaf), (nd_.num('child2'), hit & ~leaf)], u)
    c.ob('query', lab + ': nothing changes', not [x for x in writes(r.effects) if outside(x)], '')
    c.ob('query', lab + ': nothing else goes on', len([x for x in r.effects if x.kind in ('call', 'loop')]) == 1, '')
    bad = E.AND(deep_panics(r.effects).n, TRUE)
    c.ob('query', lab + ': fails only for a proxy without a live owner', fails_beyond(bad, nd_.at('user_data').is_(0, 2) | deref(nd_.at('user_data')).at('fixture').is_(0, 2)) == FALSE, E.show(bad, 5)[:300])


def segment(p, q, f):
    t = p + (q - p) * f
    return [V(smin(p.x, t.x), smin(p.y, t.y)), V(smax(p.x, t.x), smax(p.y, t.y))]


def ray(c, P, path, names, tree, lab, p, q, frac, world=False):
    H = dict(stack_hooks())
    H['b2_shape::B2shapeDynTrait::ray_cast'] = cast
    r = summarise(c, P, path, names=names, hooks=H)
    zero = ~(dot(q - p, q - p) > S(E.ZERO))
    top_bad = FALSE
    for x in r.effects:
        if x.kind == 'panic':
            top_bad = E.OR(top_bad, x.guard)
    c.ob('ray', lab + ': refused only for a segment without extent', top_bad == zero.n, E.show(top_bad, 4)[:200])
    k = pending(c, 'ray', lab, r, tree.at('m_root'))
    if not k:
        return
    L, key, top, live = k
    mx = [(kk, s, n) for kk, (i, s, n) in L.mus.items() if n is not None and kk != key and E.isnum(i) and E.constrain(i, L.guard) == E.constrain(nd(frac), L.guard)]
    if not c.ob('ray', lab + ': starts with the whole segment', len(mx) == 1, str([E.show(i, 3)[:60] for i, s, n in L.mus.values()])):
        return
    fk, fs, fnext = mx[0]
    f = S(fs)
    # the search box may be kept from step to step or computed anew; both are the box of the segment so far
    sb = segment(p, q, f)
    start = segment(p, q, frac)
    sub = {}
    for kk, (i, s, n) in L.mus.items():
        if n is None or kk in (key, fk):
            continue
        for a in range(2):
            for d in ('x', 'y'):
                w, w0 = getattr(sb[a], d), getattr(start[a], d)
                if E.isnum(i) and same(E.constrain(i, L.guard), E.constrain(w0.n, L.guard)) and kk not in sub and E.showloc(*kk).endswith(('lower_bound.', 'upper_bound.')[a] + d):
                    sub[kk] = (s, a, d, n)
    have = {(a, d): S(s) for s, a, d, n in sub.values()}
    box_ = [V(*[have.get((a, d), getattr(sb[a], d)) for d in ('x', 'y')]) for a in range(2)]
    o = Obj(term(('proj', tree.at('m_nodes').n, ('i', top.n))))
    lo, hi = box(o, 'aabb')
    mid, half = (lo + hi) * k_('0.5'), (hi - lo) * k_('0.5')
    rr = q - p
    ln = length(rr)
    rn = ite(ln < k_(EPS), rr, rr * (S(E.ONE) / ln))
    v = crosssv(S(E.ONE), rn)
    sep = sabs(dot(v, p - mid)) - (sabs(v.x) * half.x + sabs(v.y) * half.y)
    fine = ~deep_panics(L.sub)
    hit = ~top.eq(S(E.const(-1))) & overlap([lo, hi], box_) & ~(sep > S(E.ZERO))
    leaf = o.num('child1').eq(S(E.const(-1)))
    at = hit & leaf
    u = live & fine & S(L.guard)
    asked = [x for x in every(L.sub) if x.kind == 'call' and x.name == '<callback>']
    if not c.ob('ray', lab + ': one place asks the callback', len(asked) == 1, '%d' % len(asked)):
        return
    cb = asked[0]
    ans = S(number(cb.ret))
    if world:
        px = deref(o.at('user_data'))
        fx = px.at('fixture', *SOME)
        hitv, out = sym('hit', 0).bool(), sym('out', 0)
        cs = [x for x in every(L.sub) if x.kind == 'call' and x.name == 'cast']
        body = fx.at('m_body', *SOME)
        expect_calls(c, 'ray', lab, L.sub, 'cast', [((fx.ptr('m_shape', *SOME), None, None, body.at('m_xf').n, px.num('child_index').n), at)], under=u)
        for x in cs:
            given(c, r, x, 2, lab, p, q, f, E.AND(x.guard, u.n))
        F = out.num('fraction')
        expect_calls(c, 'ray', lab, L.sub, '<callback>', [((None, fx.ptr(), None, None, F.n), at & hitv)], under=u)
        pt = p * (S(E.ONE) - F) + q * F
        nm = V(out.num('normal', 'x'), out.num('normal', 'y'))
        for i, w, what in ((2, pt, 'point'), (3, nm, 'normal')):
            for d in ('x', 'y'):
                g = r.value(cb.args[i], (d,), mem=cb.mem)
                c.ob('ray', '%s: the %s reported, %s' % (lab, what, d), same(E.constrain(g, E.AND(cb.guard, u.n)), E.constrain(getattr(w, d).n, E.AND(cb.guard, u.n))), E.show(g, 4)[:200])
        val = ite(hitv, ans, f)
        for x in every(L.sub):
            if x.kind == 'call' and x.name not in ('cast', '<callback>'):
                c.ob('ray', lab + ': nothing else is asked', False, x.name)
    else:
        expect_calls(c, 'ray', lab, L.sub, '<callback>', [((None, None, top.n), at)], under=u)
        given(c, r, cb, 1, lab, p, q, f, E.AND(cb.guard, u.n))
        val = ans
    stops(c, 'ray', lab, L, live, fine & S(L.guard), at & val.eq(S(E.ZERO)))
    pushes(c, 'ray', lab, L.sub, [(o.num('child1'), hit & ~leaf), (o.num('child2'), hit & ~leaf)], u)
    go = E.AND(L.e.info['back_pc'], u.n)
    clip = at & (val > S(E.ZERO))
    w = ite(clip, val, f)
    c.ob('ray', lab + ': a positive answer clips the ray', same(E.constrain(fnext, go), E.constrain(w.n, go)), last_difference(E.constrain(fnext, go), E.constrain(w.n, go)))
    new = segment(p, q, val)
    for s, a, d, n in sub.values():
        w = ite(clip, getattr(new[a], d), S(s))
        c.ob('ray', '%s: the search box follows the clipped ray, %s %s' % (lab, ('lower', 'upper')[a], d), same(E.constrain(n, go), E.constrain(w.n, go)), last_difference(E.constrain(n, go), E.constrain(w.n, go)))
    c.ob('ray', lab + ': nothing changes', not [x for x in writes(r.effects) if outside(x)], '')
    c.ob('ray', lab + ': nothing else goes on', len([x for x in r.effects if x.kind in ('call', 'loop')]) == 1, '')
    bad = deep_panics(L.sub).n
    none = FALSE
    if world:
        for g in (o.at('user_data'), px.at('fixture'), fx.at('m_body'), fx.at('m_shape')):
            none = E.OR(none, g.is_(0, 2).n)
    c.ob('ray', lab + ': fails only for a proxy without a live owner', fails_beyond(bad, S(none)) == FALSE, E.show(fails_beyond(bad, S(none)), 5)[:300])


def last_difference(a, b):
    s = show_difference(a, b, 4)
    return s[s.rfind('; '):][:400]


def given(c, r, x, i, lab, p, q, f, g):
    for keys, w in ((('p1', 'x'), p.x), (('p1', 'y'), p.y), (('p2', 'x'), q.x), (('p2', 'y'), q.y), (('max_fraction',), f)):
        v = r.value(x.args[i], keys, mem=x.mem)
        c.ob('ray', '%s: the ray handed on, %s' % (lab, '.'.join(keys)), same(E.constrain(v, g), E.constrain(w.n, g)), E.show(v, 4)[:200])


T = 'b2_dynamic_tree::B2dynamicTree::<UserDataType>::'
B = 'b2_broad_phase::B2broadPhase::<UserDataType>::'
W = 'b2_world::B2world::<D>::'
EPS = '0.00000011920929'


def check(c):
    P = c.P
    c.rule('query', 'a box query visits every stored box that overlaps it, hands each owner to the callback, and stops only when told to')
    c.rule('ray', 'a ray cast visits every stored box the clipped ray can reach, reports hits exactly, and obeys the callback\'s answer')
    c.rule('stack', 'the list of pending nodes keeps everything put on it, in order')
    me = sym('self')
    wt = sym('world').at('m_contact_manager', 'm_broad_phase', 'm_tree')
    bt = me.at('m_tree')
    for path, names, tree, lab in ((T + 'query', ['self', 'cb', 'box'], me, 'tree'), (B + 'query', ['self', 'cb', 'box'], bt, 'broad phase')):
        query(c, P, path, names, tree, lab, lambda o, top: (None, top.n))
    query(c, P, W + 'query_aabb', ['world', 'cb', 'box'], wt, 'world', lambda o, top: (None, deref(o.at('user_data')).ptr('fixture', *SOME)))
    inp = sym('input')
    ip, iq, fr_ = [V(inp.num(k, 'x'), inp.num(k, 'y')) for k in ('p1', 'p2')] + [inp.num('max_fraction')]
    ray(c, P, T + 'ray_cast', ['self', 'cb', 'input'], me, 'tree', ip, iq, fr_)
    ray(c, P, B + 'ray_cast', ['self', 'cb', 'input'], bt, 'broad phase', ip, iq, fr_)
    a, b = [V(sym(n).num('x'), sym(n).num('y')) for n in ('p', 'q')]
    ray(c, P, W + 'ray_cast', ['world', 'cb', 'p', 'q'], wt, 'world', a, b, S(E.ONE), world=True)
    stack(c, P)


def stack(c, P):
    """pending nodes live in a fixed array that spills into a heap list: both halves behave as one list."""
    me, x = sym('self'), sym('x')
    fixed, heap = me.at('value', ('d', 'Stack'), '0'), me.at('value', ('d', 'DynVec'), '0')
    isfix = me.at('value').is_(0, 2)
    n, ln = fixed.num('m_count'), S(E.like(heap.at('len').n, E.ZERO))
    N = S(E.like(sym('const', '?').n, E.ZERO))
    r = summarise(c, P, GS + 'new', names=[])
    v = r.value(r.ret, ('value',))
    q = payload(v) if is_term(v) else ('',)
    c.ob('stack', 'new is empty', q[0] == 'agg' and (r.value(v, (('d', 'Stack'), '0', 'm_count')) == E.ZERO if q[2] == 'Stack' else r.value(v, (('d', 'DynVec'), '0', 'len')) == E.ZERO), E.show(v, 4)[:200])
    no_panic(c, 'stack', 'new', r)
    r = summarise(c, P, GS + 'get_count', names=['self'])
    c.ob('stack', 'count', same(r.ret, ite(isfix, n, ln)), E.show(r.ret, 4))
    r = summarise(c, P, GS + 'push', names=['self', 'x'])
    v = r.value(me.ptr(), ('value',))
    room, full = isfix & (n < N), isfix & n.eq(N)
    for lab, u, keys, w in (('with room: the count', room, (('d', 'Stack'), '0', 'm_count'), n + 1), ('with room: the new entry', room, (('d', 'Stack'), '0', 'm_array', ('i', n.n)), S(x.n)),
                            ('when full: the count', full, (('d', 'DynVec'), '0', 'len'), N + 1), ('when full: the new entry', full, (('d', 'DynVec'), '0', ('i', N.n)), S(x.n)),
                            ('on the heap: the count', ~isfix, (('d', 'DynVec'), '0', 'len'), ln + 1), ('on the heap: the new entry', ~isfix, (('d', 'DynVec'), '0', ('i', ln.n)), S(x.n))):
        g = E.constrain(r.value(E.constrain(v, u.n), keys), u.n)
        c.ob('stack', 'push ' + lab, same(g, E.constrain(w.n, u.n)), E.show(g, 4)[:200])
    for lab, u, base, own in (('with room', room, fixed.at('m_array'), ('m_array',)), ('on the heap', ~isfix, heap, ())):
        kept = [x for x in writes(r.effects) if E.AND(x.guard, u.n) != FALSE]
        bad = [x for x in kept if not E.showloc(*x.loc).startswith('self.value.d.' + ('Stack.0.m_array.[' if own else 'DynVec.0')) and E.showloc(*x.loc) != 'self.value.d.Stack.0.m_count']
        c.ob('stack', 'push %s keeps the rest' % lab, not bad, str(bad)[:200])
    g = E.constrain(r.value(E.constrain(v, full.n), (('d', 'DynVec'), '0')), full.n)
    p = payload(g) if is_term(g) else ('',)
    src = None
    if p[0] == 'upd' and {k for k, _ in p[2]} == {'len', ('i', N.n)}:
        b = payload(p[1])
        src = b[2] if b[0] == 'app' and b[1] == 'concat' else None
    c.ob('stack', 'push when full keeps all earlier entries', src is not None and payload(src[0])[:2] == ('agg', 'vec') and not payload(src[0])[3] and src[1] == fixed.at('m_array').n, E.show(g, 4)[:200])
    no_panic(c, 'stack', 'push', r, allowed=~(S(E.ZERO) < n + 1) | (N < n))
    r = summarise(c, P, GS + 'pop', names=['self'])
    some_ = ite(isfix, n, ln) > S(E.ZERO)
    u = some_ & (~isfix | ~(N < n))
    last = ite(isfix, S(E.like(fixed.at('m_array', ('i', (n - 1).n)).n, E.ZERO)), S(E.like(heap.at(('i', (ln - 1).n)).n, E.ZERO)))
    g = E.constrain(r.eng.coerce_num(r.ret), u.n)
    c.ob('stack', 'pop returns the last entry', same(g, E.constrain(last.n, u.n)), E.show(g, 4)[:200])
    v = r.value(me.ptr(), ('value',))
    for lab, uu, keys, w in (('fixed', isfix & u, (('d', 'Stack'), '0', 'm_count'), n - 1), ('heap', ~isfix & u, (('d', 'DynVec'), '0', 'len'), ln - 1)):
        g = E.constrain(r.value(E.constrain(v, uu.n), keys), uu.n)
        c.ob('stack', 'pop takes one entry off, ' + lab, same(r.eng.coerce_num(g), E.constrain(w.n, uu.n)), E.show(g, 4)[:200])
    bad = [x for x in writes(r.effects) if E.AND(x.guard, u.n) != FALSE and E.showloc(*x.loc) not in ('self.value.d.Stack.0.m_count', 'self.value.d.DynVec.0')]
    c.ob('stack', 'pop changes nothing else', not bad, str(bad)[:200])
    c.ob('stack', 'pop fails only on an empty list', E.AND(panics(r).n, (u & (~isfix | (n - 1 < N))).n) == FALSE, E.show(panics(r).n, 4)[:200])
