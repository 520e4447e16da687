"""The box tree: links, boxes and heights stay exact through insertion, removal and rotation."""
from ..spec import *
from .worldlib import *
from .c03 import k_
from .c18 import every, deep_panics
from .c19 import OR_exits

T = 'b2_dynamic_tree::B2dynamicTree::<UserDataType>::'
TP = 'private::collision::b2_dynamic_tree::'
NULL = S(E.const(-1))
EXT = k_('0.1')
MARGIN = k_('4.0')
MULT = 4
BOX = [('lower_bound', 'x'), ('lower_bound', 'y'), ('upper_bound', 'x'), ('upper_bound', 'y')]


def both(h):
    """hooks apply to the public methods and to the functions behind them."""
    out = {}
    for k, v in h.items():
        out[T + k] = out[TP + k] = v
    return out


def renew(name, what, ret=None):
    """a recorded call after which the node pool has unknown contents."""
    def h(e, fr, st, args, tys, dt, line, fop):
        v = record(name, ret)(e, fr, st, args, tys, dt, line, fop)
        e.store(st, e.extend(args[0], 'm_nodes'), sym(what).n)
        e.store(st, e.extend(args[0], 'm_root'), sym(what, 'root').num().n)
        return v
    return h


def row(nodes, i):
    return Obj(term(('proj', nodes.n, ('i', nd(i)))))


def box(o):
    return [o.num('aabb', *k) for k in BOX]


def union(a, b):
    return [smin(a[0], b[0]), smin(a[1], b[1]), smax(a[2], b[2]), smax(a[3], b[3])]


def perimeter(b):
    return S(E.const(2)) * ((b[2] - b[0]) + (b[3] - b[1]))


def contains(a, b):
    return ~(b[0] < a[0]) & ~(b[1] < a[1]) & ~(a[2] < b[2]) & ~(a[3] < b[3])


def leaf(o):
    return o.num('child1').eq(NULL)


def pool(c, P):
    me = sym('self')
    nodes = me.at('m_nodes')
    fl, cnt, cap = me.num('m_free_list'), me.num('m_node_count'), me.num('m_node_capacity')
    r = summarise(c, P, T + 'allocate_node', names=['self'])
    none = fl.eq(NULL)
    bad = none & ~cnt.eq(cap)
    c.ob('pool', 'taking a node fails only if the count is inconsistent', panics(r).n == bad.n, E.show(panics(r).n, 4))
    new = ite(none, cnt, fl)
    c.ob('pool', 'the node taken is the first free one', same(E.constrain(r.ret, (~bad).n), E.constrain(new.n, (~bad).n)), E.show(r.ret, 4))
    ls = loops(r)
    after = None
    c.ob('pool', 'growing links the new nodes in one pass', len(ls) == 1, '%d' % len(ls))
    for L in ls[:1]:
        c.ob('pool', 'the pool grows exactly when no node is free', L.guard == none.n, E.show(L.guard, 3))
        hit = False
        for key, (i, s, n) in L.mus.items():
            if n is None or not E.isnum(s):
                continue
            m = S(s)
            live = m < cap * 2 - 1
            u = (S(L.guard) & live).n
            if same(E.constrain(i, L.guard), E.constrain(cnt.n, L.guard)) and same(E.constrain(n, u), E.constrain((m + 1).n, u)):
                hit = True
                c.ob('pool', 'growing visits every new node but the last', E.AND(L.e.info['back_pc'], L.guard) == u, E.show(L.e.info['back_pc'], 3))
                o = row(nodes, m)
                row_writes(c, 'pool', 'growing', r, L.sub, S(u), [(o, o, {('parent',): m + 1, ('height',): NULL})])
                for kk, (i2, s2, n2) in L.mus.items():
                    if E.showloc(*kk) == 'self.m_nodes':
                        after = Obj(nolen(s2))
        c.ob('pool', 'growing counts from the first new node', hit, str([E.show(i, 3)[:60] for i, s, n in L.mus.values()]))
    if after is None:
        return
    for lab, u, src, i in (('with a free node', ~none, nodes, fl), ('after growing', none & ~bad, after, cnt)):
        o = row(src, i)
        w = {o_: v for o_, v in ((('parent',), NULL), (('child1',), NULL), (('child2',), NULL), (('height',), S(E.ZERO)))}
        es = [x for x in r.effects if x.kind != 'loop']
        rows = [(row(nodes, i), o, w)]
        extra = ['self.m_free_list', 'self.m_node_count', 'self.m_node_capacity', 'self.m_nodes.[%s].user_data' % E.show(nd(i), 9), 'self.m_nodes.[%s].moved' % E.show(nd(i), 9)]
        if lab != 'with a free node':
            z = cap * 2 - 1
            rows.append((row(nodes, z), row(after, z), {('parent',): NULL, ('height',): NULL}))
            es = [x for x in es if not (x.kind == 'write' and E.showloc(*x.loc) == 'self.m_nodes')]
        row_writes(c, 'pool', lab, r, es, u, rows, ignore=tuple(extra))
        v = E.constrain(r.value(me.ptr(), ('m_free_list',)), u.n)
        c.ob('pool', lab + ': the next free node is first now', same(v, E.constrain(o.num('parent').n, u.n)), E.show(v, 4))
        v = E.constrain(r.value(me.ptr(), ('m_node_capacity',)), u.n)
        c.ob('pool', lab + ': capacity', same(v, E.constrain((cap if lab == 'with a free node' else cap * 2).n, u.n)), E.show(v, 4))
        for key, w_ in (('user_data', None), ('moved', FALSE)):
            v = E.constrain(r.value(E.constrain(r.value(me.ptr(), ('m_nodes', ('i', nd(i)))), u.n), (key,)), u.n)
            ok = v == FALSE if key == 'moved' else is_term(v) and payload(v)[0] == 'agg' and payload(v)[2] == 'None'
            c.ob('pool', '%s: a fresh node has no %s' % (lab, {'user_data': 'owner', 'moved': 'movement mark'}[key]), ok, E.show(v, 4)[:200])
    v = r.value(me.ptr(), ('m_node_count',))
    c.ob('pool', 'one more node is in use', same(v, cnt + 1), E.show(v, 3))
    g = E.constrain(r.value(me.ptr(), ('m_nodes', 'len')), (none & ~bad).n)
    c.ob('pool', 'the grown pool holds the new capacity', same(g, E.constrain((cap * 2).n, (none & ~bad).n)), E.show(g, 3))

    idn = sym('id').num()
    r = summarise(c, P, T + 'free_node', names=['self', 'id'])
    ok = ~(idn < S(E.ZERO)) & (idn < cap) & (cnt > S(E.ZERO))
    c.ob('pool', 'returning a node is refused exactly for an unknown one', panics(r).n == (~ok).n, E.show(panics(r).n, 4))
    o = row(nodes, idn)
    expect_changes(c, 'pool', 'returning a node', r, {o.at('parent'): fl, o.at('height'): NULL, me.at('m_free_list'): idn, me.at('m_node_count'): cnt - 1}, under=ok, ignore=('self.m_nodes.[id].user_data', 'self.m_nodes.[id].moved', 'self.m_nodes.[id].aabb', 'self.m_nodes.[id].child1', 'self.m_nodes.[id].child2'))

    r = summarise(c, P, T + 'new', names=[], unroll=64)
    for key, w in (('m_root', NULL), ('m_node_count', S(E.ZERO)), ('m_free_list', S(E.ZERO)), ('m_insertion_count', S(E.ZERO))):
        v = r.value(r.ret, (key,))
        c.ob('pool', 'a new tree: ' + key[2:], same(v, w), E.show(v, 3))
    n0, n1 = r.value(r.ret, ('m_node_capacity',)), r.value(r.ret, ('m_nodes', 'len'))
    c.ob('pool', 'a new tree has room', n0 == n1 and nd(S(n0) > S(E.ZERO)) == TRUE, '%s %s' % (E.show(n0, 3), E.show(n1, 3)))
    no_panic(c, 'pool', 'new', r)
    n = next((i for i in range(1, 65) if n0 == E.const(i)), 0)
    for i in range(n):
        for key, w in (('parent', i + 1 if i + 1 < n else -1), ('height', -1)):
            v = r.value(r.ret, ('m_nodes', ('i', E.const(i)), key))
            c.ob('pool', 'a new tree: %s of node %d' % (key, i), same(v, E.const(w)), E.show(v, 3)[:200])


def balance(c, P):
    me, ia = sym('self'), sym('a').num()
    nodes, cap = me.at('m_nodes'), me.num('m_node_capacity')
    A = row(nodes, ia)
    ib, ic = A.num('child1'), A.num('child2')
    Bn, Cn = row(nodes, ib), row(nodes, ic)
    r = summarise(c, P, T + 'balance', names=['self', 'a'])
    flat = leaf(A) | (A.num('height') < S(E.const(2)))
    diff = Cn.num('height') - Bn.num('height')
    up = ~flat & (diff > S(E.ONE))
    dn = ~flat & ~(diff > S(E.ONE)) & (diff < S(E.const(-1)))
    ip = A.num('parent')
    Pn = row(nodes, ip)
    isroot = ip.eq(NULL)
    inr = lambda i: ~(i < S(E.ZERO)) & (i < cap)
    linked = isroot | Pn.num('child1').eq(ia) | Pn.num('child2').eq(ia)
    want = {}
    tot = {}

    def put(o, v, cond):
        k = E.showloc(*locof(o))
        old = tot[k][1] if k in tot else o.num()
        tot[k] = (o, ite(cond, v, old))
    ok = ~ia.eq(NULL) & (flat | (inr(ib) & inr(ic)))
    for cond, iu, U, ik, K, side in ((up, ic, Cn, ib, Bn, 'child2'), (dn, ib, Bn, ic, Cn, 'child1')):
        # U moves up above A; K stays below A; U's taller child stays with U, the other goes to A
        i1, i2 = U.num('child1'), U.num('child2')
        X, Y = row(nodes, i1), row(nodes, i2)
        ok = ok & (~cond | (inr(i1) & inr(i2) & linked))
        first = X.num('height') > Y.num('height')
        put(U.at('child1'), ia, cond)
        put(U.at('child2'), ite(first, i1, i2), cond)
        put(U.at('parent'), ip, cond)
        put(A.at('parent'), iu, cond)
        put(A.at(side), ite(first, i2, i1), cond)
        put(X.at('parent'), ia, cond & ~first)
        put(Y.at('parent'), ia, cond & first)
        bl = [ite(first, y, x) for x, y in zip(box(X), box(Y))]
        bt = [ite(first, x, y) for x, y in zip(box(X), box(Y))]
        ab = union(box(K), bl)
        ub = union(ab, bt)
        ha = smax(K.num('height'), ite(first, Y.num('height'), X.num('height'))) + 1
        put(A.at('height'), ha, cond)
        put(U.at('height'), smax(ha, ite(first, X.num('height'), Y.num('height'))) + 1, cond)
        for k, a, b in zip(BOX, ab, ub):
            put(A.at('aabb', *k), a, cond)
            put(U.at('aabb', *k), b, cond)
        put(me.at('m_root'), iu, cond & isroot)
        one = Pn.num('child1').eq(ia)
        put(Pn.at('child1'), iu, cond & ~isroot & one)
        put(Pn.at('child2'), iu, cond & ~isroot & ~one)
    c.ob('rotate', 'refused only for a broken tree', E.AND(panics(r).n, ok.n) == FALSE, E.show(E.AND(panics(r).n, ok.n), 5)[:300])
    v = E.constrain(r.ret, ok.n)
    c.ob('rotate', 'the returned node is the one on top now', same(v, E.constrain(ite(up, ic, ite(dn, ib, ia)).n, ok.n)), E.show(v, 4)[:300])
    expect_changes(c, 'rotate', 'rotation', r, {o: v for o, v in tot.values()}, under=ok)


def proxies(c, P):
    me = sym('self')
    nodes, cap = me.at('m_nodes'), me.num('m_node_capacity')
    H = both({'allocate_node': renew('alloc', 'pool', lambda e, a, n: sym('new').num().n), 'insert_leaf': record('insert'), 'remove_leaf': record('remove'), 'free_node': record('free')})
    b = [sym('box').num(*k) for k in BOX]
    fat = [b[0] - EXT, b[1] - EXT, b[2] + EXT, b[3] + EXT]
    r = summarise(c, P, T + 'create_proxy', names=['self', 'box', 'data'], hooks=H)
    new = sym('new').num()
    expect_calls(c, 'proxy', 'create', r.effects, 'alloc', [((me.ptr(),), S(TRUE))])
    expect_calls(c, 'proxy', 'create', r.effects, 'insert', [((me.ptr(), new.n), S(TRUE))])
    before(c, 'proxy', 'create', r.effects, 'alloc', 'insert')
    c.ob('proxy', 'create returns the new node', same(r.ret, new), E.show(r.ret, 3))
    no_panic(c, 'proxy', 'create', r)
    for x in calls(r.effects, 'insert'):
        for k, w in zip(BOX, fat):
            v = r.value(me.ptr(), ('m_nodes', ('i', new.n), 'aabb') + k, mem=x.mem)
            c.ob('proxy', 'create: the stored box is the box plus the margin, ' + ' '.join(k), same(v, w), E.show(v, 4))
        v = r.value(me.ptr(), ('m_nodes', ('i', new.n), 'height'), mem=x.mem)
        c.ob('proxy', 'create: a proxy is a leaf of height 0', same(v, E.ZERO), E.show(v, 3))
    v = r.value(me.ptr(), ('m_nodes', ('i', new.n), 'moved'))
    c.ob('proxy', 'create: a new proxy counts as moved', v == TRUE, E.show(v, 3))
    v = r.value(me.ptr(), ('m_nodes', ('i', new.n), 'user_data'))
    c.ob('proxy', 'create: the owner is kept', v == some(sym('data').n).n, E.show(v, 4))
    allow = ['aabb', 'height', 'moved', 'user_data']
    bad = [x for x in writes(r.effects) if outside(x) and not any(E.showloc(*x.loc).startswith('self.m_nodes.[new].' + a) for a in allow) and E.showloc(*x.loc) not in ('self.m_nodes', 'self.m_root')]
    c.ob('proxy', 'create changes nothing else', not bad, str([str(x)[:100] for x in bad]))

    idn = sym('id').num()
    o = row(nodes, idn)
    ok = ~(idn < S(E.ZERO)) & (idn < cap) & leaf(o)
    r = summarise(c, P, T + 'destroy_proxy', names=['self', 'id'], hooks=H)
    expect_calls(c, 'proxy', 'destroy', r.effects, 'remove', [((me.ptr(), idn.n), S(TRUE))], under=ok)
    expect_calls(c, 'proxy', 'destroy', r.effects, 'free', [((me.ptr(), idn.n), S(TRUE))], under=ok)
    before(c, 'proxy', 'destroy', r.effects, 'remove', 'free')
    c.ob('proxy', 'destroy is refused exactly for what is not a proxy', panics(r).n == (~ok).n, E.show(panics(r).n, 4)[:200])
    expect_changes(c, 'proxy', 'destroy', r, {}, under=ok)

    H2 = both({'insert_leaf': record('insert'), 'remove_leaf': record('remove')})
    r = summarise(c, P, T + 'move_proxy', names=['self', 'id', 'box', 'd'], hooks=H2)
    d = [S(E.const(MULT)) * sym('d').num(k) for k in ('x', 'y')]
    Z = S(E.ZERO)
    pred = [fat[0] + smin(d[0], Z), fat[1] + smin(d[1], Z), fat[2] + smax(d[0], Z), fat[3] + smax(d[1], Z)]
    tb = box(o)
    m4 = MARGIN * EXT
    huge = [pred[0] - m4, pred[1] - m4, pred[2] + m4, pred[3] + m4]
    keep = contains(tb, b) & contains(huge, tb)
    c.ob('proxy', 'move is refused exactly for what is not a proxy', panics(r).n == (~ok).n, E.show(panics(r).n, 4)[:200])
    v = E.constrain(r.ret, ok.n)
    c.ob('proxy', 'move reports whether the stored box was replaced', same(v, E.constrain((~keep).n, ok.n)), show_difference(v, E.constrain((~keep).n, ok.n), 5)[:500])
    for nm in ('remove', 'insert'):
        expect_calls(c, 'proxy', 'move', r.effects, nm, [((me.ptr(), idn.n), ~keep)], under=ok)
    before(c, 'proxy', 'move', r.effects, 'remove', 'insert')
    w = {o.at('aabb', *k): ite(keep, q, p_) for k, p_, q in zip(BOX, pred, tb)}
    w[o.at('moved')] = ite(keep, o.bool('moved'), S(TRUE))
    expect_changes(c, 'proxy', 'move', r, w, under=ok)
    for x in calls(r.effects, 'insert'):
        for k, p_ in zip(BOX, pred):
            u = E.AND(x.guard, ok.n)
            v = E.constrain(r.value(me.ptr(), ('m_nodes', ('i', idn.n), 'aabb') + k, mem=x.mem), u)
            c.ob('proxy', 'move: re-inserted with the new box, ' + ' '.join(k), same(v, E.constrain(p_.n, u)), E.show(v, 4)[:200])
    for x in calls(r.effects, 'remove'):
        for k, p_ in zip(BOX, tb):
            u = E.AND(x.guard, ok.n)
            v = E.constrain(r.value(me.ptr(), ('m_nodes', ('i', idn.n), 'aabb') + k, mem=x.mem), u)
            c.ob('proxy', 'move: removed before its box changes, ' + ' '.join(k), same(v, E.constrain(p_.n, u)), E.show(v, 4)[:200])
    for name, names, ret, w in (('get_user_data', ['self', 'id'], o.at('user_data').n, {}), ('was_moved', ['self', 'id'], o.bool('moved').n, {}), ('clear_moved', ['self', 'id'], None, {o.at('moved'): S(FALSE)})):
        r = summarise(c, P, T + name, names=names)
        if ret is not None:
            c.ob('proxy', name, same(r.ret, ret), E.show(r.ret, 3))
        expect_changes(c, 'proxy', name, r, w, under=~(idn < S(E.ZERO)) & (idn < cap))
        c.ob('proxy', name + ' is refused only for an unknown proxy', E.AND(panics(r).n, (~(idn < S(E.ZERO)) & (idn < cap)).n) == FALSE, E.show(panics(r).n, 3))
    r = summarise(c, P, T + 'get_fat_aabb', names=['self', 'id'])
    for k, w in zip(BOX, tb):
        v = r.value(r.ret, k)
        c.ob('proxy', 'the stored box is reported, ' + ' '.join(k), same(v, w), E.show(v, 3))
    expect_changes(c, 'proxy', 'get_fat_aabb', r, {})


def take(e, fr, st, args, tys, dt, line, fop):
    """a node from the pool: fresh and different from every node in use."""
    v = record('alloc', lambda e, a, n: sym('new').num().n)(e, fr, st, args, tys, dt, line, fop)
    at = e.extend(e.extend(args[0], 'm_nodes'), ('i', v))
    for k in ('parent', 'child1', 'child2'):
        e.store(st, e.extend(at, k), NULL.n)
    e.store(st, e.extend(at, 'height'), E.ZERO)
    e.store(st, e.extend(at, 'user_data'), e.none())
    e.store(st, e.extend(at, 'moved'), FALSE)
    return v


def give(e, fr, st, args, tys, dt, line, fop):
    """a node returned to the pool: its parent and height no longer mean anything."""
    v = record('free')(e, fr, st, args, tys, dt, line, fop)
    at = e.extend(e.extend(args[0], 'm_nodes'), ('i', e.coerce_num(args[1])))
    e.store(st, e.extend(at, 'parent'), sym('next free').num().n)
    e.store(st, e.extend(at, 'height'), NULL.n)
    return v


def climb(c, lab, r, es, L, start, when):
    """the pass towards the root: each node on the way is balanced, then gets its children's union and height."""
    me = sym('self')
    cur = [S(s) for key, (i, s, n) in L.mus.items() if n is not None and E.isnum(i) and E.showloc(*key) != 'self.m_root' and same(E.constrain(i, when.n), E.constrain(start.n, when.n))]
    c.ob('climb', lab + ': happens after every change', E.AND(L.guard, when.n) == when.n, E.show(L.guard, 3)[:200])
    if not c.ob('climb', lab + ': starts right above the change', len(cur) == 1, str([E.show(i, 3)[:80] for i, s, n in L.mus.values()])):
        return
    m = cur[0]
    live = ~m.eq(NULL)
    top = sym('top').num()
    after = sym('balanced')
    X = row(after, top)
    k1, k2 = row(after, X.num('child1')), row(after, X.num('child2'))
    whole = ~X.num('child1').eq(NULL) & ~X.num('child2').eq(NULL)
    g = S(L.guard) & live
    u = g & whole
    bad = deep_panics(L.sub)
    c.ob('climb', lab + ': fails only for a broken tree', E.AND(bad.n, u.n) == FALSE, E.show(bad.n, 3)[:200])
    expect_calls(c, 'climb', lab, L.sub, 'balance', [((me.ptr(), m.n), S(TRUE))], under=g)
    for x in calls(L.sub, 'balance'):
        v = r.value(me.ptr(), ('m_nodes',), mem=x.mem)
        c.ob('climb', lab + ': balanced before its box and height are refreshed', not [w for w in L.sub[:L.sub.index(x)] if w.kind == 'write' and outside(w)], '')
    w = {('aabb',) + k: v for k, v in zip(BOX, union(box(k1), box(k2)))}
    w[('height',)] = smax(k1.num('height'), k2.num('height')) + 1
    row_writes(c, 'climb', lab, r, L.sub, u, [(row(sym('self').at('m_nodes'), top), X, w)])
    nx = [n for key, (i, s, n) in L.mus.items() if s == m.n][0]
    c.ob('climb', lab + ': goes on to the parent', same(E.constrain(nx, u.n), E.constrain(X.num('parent').n, u.n)), E.show(nx, 3)[:200])
    c.ob('climb', lab + ': up to the root', E.AND(L.e.info['back_pc'], (S(L.guard) & (~live | whole)).n) == u.n, E.show(L.e.info['back_pc'], 3)[:300])
    c.ob('climb', lab + ': nothing follows', not [x for x in es[es.index(L.e) + 1:] if x.kind in ('write', 'call') and E.AND(x.guard, when.n) != FALSE and (x.kind == 'call' or outside(x))], '')


HL = both({'allocate_node': take, 'free_node': give, 'balance': renew('balance', 'balanced', lambda e, a, n: sym('top').num().n)})


def insert(c, P):
    me, lf = sym('self'), sym('leaf').num()
    nodes, root = me.at('m_nodes'), me.num('m_root')
    r = summarise(c, P, T + 'insert_leaf', names=['self', 'leaf'], hooks=HL)
    empty = root.eq(NULL)
    Lf = row(nodes, lf)
    top = [x for x in r.effects if x.kind != 'loop']
    row_writes(c, 'insert', 'first proxy', r, top, empty, [(Lf, Lf, {('parent',): NULL})], ignore=('self.m_insertion_count', 'self.m_root'))
    v = E.constrain(r.value(me.ptr(), ('m_root',)), empty.n)
    c.ob('insert', 'the first proxy becomes the root', same(v, E.constrain(lf.n, empty.n)), E.show(v, 3))
    ls = loops(r)
    if not c.ob('insert', 'one descent and one way back', len(ls) == 2, '%d passes' % len(ls)):
        return
    D, U = ls
    c.ob('insert', 'an empty tree needs no search', E.AND(D.guard, empty.n) == FALSE and E.AND(D.guard, (~empty).n) == (~empty).n, E.show(D.guard, 3))
    cur = [(S(s), n) for key, (i, s, n) in D.mus.items() if n is not None and E.isnum(i) and same(E.constrain(i, D.guard), E.constrain(root.n, D.guard))]
    if not c.ob('insert', 'the search starts at the root', len(cur) == 1, str([E.show(i, 3)[:80] for i, s, n in D.mus.values()])):
        return
    m, nx = cur[0]
    X = row(nodes, m)
    i1, i2 = X.num('child1'), X.num('child2')
    lb = box(Lf)
    comb = perimeter(union(box(X), lb))
    cost = comb * 2
    inh = (comb - perimeter(box(X))) * 2

    def down(i):
        K = row(nodes, i)
        new = perimeter(union(lb, box(K)))
        return ite(leaf(K), new, new - perimeter(box(K))) + inh
    c1, c2 = down(i1), down(i2)
    g = S(D.guard)
    go = ~leaf(X) & ~((cost < c1) & (cost < c2))
    back = S(D.e.info['back_pc'])
    c.ob('insert', 'the search descends until a new parent here is cheapest', (back & g).n == (go & g).n, show_difference((back & g).n, (go & g).n, 4)[:400] if (back & g).n != (go & g).n else '')
    w = ite(c1 < c2, i1, i2)
    c.ob('insert', 'the search descends into the cheaper child', same(E.constrain(nx, (go & g).n), E.constrain(w.n, (go & g).n)), E.show(nx, 4)[:300])
    c.ob('insert', 'the search changes nothing', not [x for x in every(D.sub) if x.kind in ('write', 'call') and (x.kind == 'call' or outside(x))], '')
    new = sym('new').num()
    done = S(OR_exits(D)) & ~empty
    expect_calls(c, 'insert', 'join', r.effects, 'alloc', [((me.ptr(),), ~empty)], under=done)
    u = done
    at = r.effects.index(U.e)
    es = [x for x in r.effects[:at] if x.kind != 'loop']
    Sb, Nw = X, row(nodes, new)
    op = Sb.num('parent')
    Op = row(nodes, op)
    at_root = op.eq(NULL)
    first = Op.num('child1').eq(m)
    nb = {('aabb',) + k: v for k, v in zip(BOX, union(lb, box(Sb)))}
    nb.update({('parent',): op, ('child1',): m, ('child2',): lf, ('height',): Sb.num('height') + 1})
    row_writes(c, 'insert', 'join', r, es, u, [(Nw, Fresh(Nw), nb), (Sb, Sb, {('parent',): new}), (Lf, Lf, {('parent',): new}),
               (Op, Op, {('child1',): ite(~at_root & first, new, Op.num('child1')), ('child2',): ite(~at_root & ~first, new, Op.num('child2'))})],
               ignore=('self.m_insertion_count', 'self.m_root', E.showloc(*locof(Nw)) + '.user_data'))
    for k, (i, s, n) in U.mus.items():
        if E.showloc(*k) == 'self.m_root':
            v = E.constrain(i, u.n)
            c.ob('insert', 'a new parent of the root becomes the root', same(v, E.constrain(ite(at_root, new, root).n, u.n)), E.show(v, 4)[:200])
        if E.showloc(*k) == 'self.m_nodes':
            v = r.value(E.constrain(i, u.n), (('i', new.n), 'user_data'))
            c.ob('insert', 'a new parent has no owner', is_term(v) and payload(v)[0] == 'agg' and payload(v)[2] == 'None', E.show(v, 3)[:200])
    v = r.value(me.ptr(), ('m_insertion_count',))
    climb(c, 'insert', r, r.effects, U, new, u)


class Fresh(Obj):
    """a node just taken from the pool."""
    def __init__(self, o):
        Obj.__init__(self, o.n)

    def num(self, *k):
        return {('parent',): NULL, ('child1',): NULL, ('child2',): NULL, ('height',): S(E.ZERO)}.get(k) or Obj(self.n).num(*k)


def remove(c, P):
    me, lf = sym('self'), sym('leaf').num()
    nodes, root = me.at('m_nodes'), me.num('m_root')
    r = summarise(c, P, T + 'remove_leaf', names=['self', 'leaf'], hooks=HL)
    only = lf.eq(root)
    Lf = row(nodes, lf)
    pi = Lf.num('parent')
    Pr = row(nodes, pi)
    gi = Pr.num('parent')
    G = row(nodes, gi)
    first = Pr.num('child1').eq(lf)
    i1, i2 = Pr.num('child1'), Pr.num('child2')
    sib = ite(first, i2, i1)
    top = gi.eq(NULL)
    ls = loops(r)
    if not c.ob('remove', 'one way back', len(ls) == 1, '%d passes' % len(ls)):
        return
    U = ls[0]
    es = [x for x in r.effects if x.kind != 'loop']
    n = S(TRUE)
    expect_calls(c, 'remove', 'leave', r.effects, 'free', [((me.ptr(), pi.n), ~only)])
    row_writes(c, 'remove', 'the only proxy', r, es, only, [], ignore=('self.m_root',))
    v = E.constrain(r.value(me.ptr(), ('m_root',)), only.n)
    c.ob('remove', 'removing the only proxy leaves an empty tree', same(v, NULL), E.show(v, 3))
    u = ~only
    S1, S2 = row(nodes, i1), row(nodes, i2)
    par = ite(top, NULL, gi)
    row_writes(c, 'remove', 'leave', r, es, u, [(S1, S1, {('parent',): ite(first, S1.num('parent'), par)}), (S2, S2, {('parent',): ite(first, par, S2.num('parent'))}),
               (G, G, {('child1',): ite(~top & G.num('child1').eq(pi), sib, G.num('child1')), ('child2',): ite(~top & ~G.num('child1').eq(pi), sib, G.num('child2'))})], ignore=('self.m_root',))
    v = E.constrain(r.value(me.ptr(), ('m_root',)), (u & top).n)
    c.ob('remove', 'the sibling of a proxy right below the root becomes the root', same(v, E.constrain(sib.n, (u & top).n)), E.show(v, 4)[:200])
    w = u & ~top
    for k, (i, s, n) in U.mus.items():
        if E.showloc(*k) == 'self.m_root':
            c.ob('remove', 'otherwise the root stays', same(E.constrain(i, w.n), E.constrain(root.n, w.n)), E.show(i, 3))
    c.ob('remove', 'the way back is needed only below another parent', E.AND(U.guard, (only | top).n) == FALSE, E.show(U.guard, 3)[:200])
    frees = [r.effects.index(x) for x in calls(r.effects, 'free') if E.AND(x.guard, w.n) != FALSE]
    c.ob('remove', 'the parent is returned before the way back', frees and max(frees) < r.effects.index(U.e), '')
    climb(c, 'remove', r, r.effects, U, gi, w)
    c.ob('remove', 'removal itself never fails', not [x for x in r.effects if x.kind == 'panic'], '')


def check(c):
    P = c.P
    c.rule('pool', 'nodes are taken from and returned to one free list that doubles when it is empty')
    pool(c, P)
    c.rule('rotate', 'a node whose subtrees differ in height by more than one is rotated: links, boxes and heights are exact afterwards')
    balance(c, P)
    c.rule('proxy', 'a proxy stores its box with margin and predicted movement, replaced exactly when outgrown or far too large')
    proxies(c, P)
    c.rule('insert', 'a leaf joins the sibling of least perimeter cost under a new parent that takes the sibling\'s place')
    insert(c, P)
    c.rule('remove', 'a removed leaf takes its parent with it; the sibling takes the parent\'s place')
    remove(c, P)
    c.rule('climb', 'all ancestors are balanced and get exact boxes and heights')
    c.rule('report', 'height, balance and area ratio are computed over exactly the nodes in use')
    reports(c, P)
    c.rule('rebuild', 'rebuilding keeps exactly the proxies and joins the cheapest pair until one tree is left')
    rebuild(c, P)
    c.rule('check', 'the tree\'s own consistency check accepts exactly the well-formed trees')
    self_check(c, P)


def reports(c, P):
    me = sym('self')
    nodes, cap, root = me.at('m_nodes'), me.num('m_node_capacity'), me.num('m_root')
    none = root.eq(NULL)
    Z = S(E.ZERO)
    r = summarise(c, P, T + 'get_height', names=['self'])
    c.ob('report', 'height', same(r.ret, ite(none, Z, row(nodes, root).num('height'))), E.show(r.ret, 4))
    expect_changes(c, 'report', 'height', r, {})
    no_panic(c, 'report', 'height', r)
    for name, lab in (('get_max_balance', 'balance'), ('get_area_ration', 'area ratio')):
        r = summarise(c, P, T + name, names=['self'])
        ls = loops(r)
        if not c.ob('report', lab + ': one pass', len(ls) == 1, '%d' % len(ls)):
            continue
        L = ls[0]
        ok = S(TRUE) if lab == 'balance' else ~none
        c.ob('report', lab + ': the pass runs', L.guard == ok.n, E.show(L.guard, 3))
        k = counted(c, 'report', lab, L, cap)
        if not k:
            continue
        i, live = k
        o = row(nodes, i)
        acc = [(S(s), n) for key, (i0, s, n) in L.mus.items() if n is not None and s != i.n and i0 == E.ZERO and E.isnum(s)]
        if not c.ob('report', lab + ': one total from zero', len(acc) == 1, '%d' % len(acc)):
            continue
        m, nx = acc[0]
        u = S(L.guard) & live & ~deep_panics(L.sub)
        if lab == 'balance':
            w = ite(o.num('height') > S(E.ONE), smax(m, sabs(row(nodes, o.num('child2')).num('height') - row(nodes, o.num('child1')).num('height'))), m)
            ret = m
        else:
            w = ite(o.num('height') < Z, m, m + perimeter(box(o)))
            ret = ite(none, Z, m / perimeter(box(row(nodes, root))))
        c.ob('report', lab + ': each node in use counts', same(E.constrain(nx, u.n), E.constrain(w.n, u.n)), E.show(E.constrain(nx, u.n), 4)[:300])
        c.ob('report', lab + ': result', same(r.ret, ret), E.show(r.ret, 4)[:300])
        c.ob('report', lab + ': fails only for a broken tree', E.AND(deep_panics(r.effects).n, (~leaf(o) | ~(o.num('height') > S(E.ONE))).n) == FALSE, '')
        expect_changes(c, 'report', lab, r, {})


def entries(L):
    return {E.showloc(*k): (i, s, n) for k, (i, s, n) in L.mus.items() if n is not None}


def local_list(L, size):
    """the one local list carried by the loop, with the given length."""
    for k, (i, s, n) in L.mus.items():
        if n is not None and not E.isnum(s) and not E.isbool(s) and not E.showloc(*k).startswith('self.'):
            return i, Obj(nolen(s)), n
    return None


def rebuild(c, P):
    me = sym('self')
    nodes, cap, cnt = me.at('m_nodes'), me.num('m_node_capacity'), me.num('m_node_count')
    H = dict(HL)
    H.update(both({'validate': record('validate')}))
    r = summarise(c, P, T + 'rebuild_bottom_up', names=['self'], hooks=H)
    ls = loops(r)
    if not c.ob('rebuild', 'one pass collects, one joins', len(ls) == 2, '%d' % len(ls)):
        return
    A, J = ls
    Z = S(E.ZERO)
    k = counted(c, 'rebuild', 'collecting', A, cap)
    pool_ = entry_of(A, 'self.m_nodes')
    lst = local_list(A, cnt)
    if not k or not c.ob('rebuild', 'leaves are collected in a list', pool_ is not None and lst is not None, str(list(entries(A)))):
        return
    i, live = k
    o = row(pool_, i)
    used = ~(o.num('height') < Z)
    lf = leaf(o)
    u = S(A.guard) & live & ~deep_panics(A.sub)
    acc = [(S(s), n) for key, (i0, s, n) in A.mus.items() if n is not None and s != i.n and i0 == E.ZERO and E.isnum(s)]
    if not c.ob('rebuild', 'leaves are counted', len(acc) == 1, '%d' % len(acc)):
        return
    m, nx = acc[0]
    c.ob('rebuild', 'each proxy is counted once', same(E.constrain(nx, u.n), E.constrain(ite(used & lf, m + 1, m).n, u.n)), E.show(nx, 4)[:200])
    v = E.constrain(r.value(E.constrain(lst[2], (u & used & lf).n), (('i', m.n),)), (u & used & lf).n)
    c.ob('rebuild', 'each proxy is collected', same(v, E.constrain(i.n, (u & used & lf).n)), E.show(v, 3)[:200])
    expect_calls(c, 'rebuild', 'collecting', A.sub, 'free', [((me.ptr(), i.n), used & ~lf)], under=u)
    row_writes(c, 'rebuild', 'collecting', r, [x for x in A.sub if x.kind == 'write'], u, [(row(nodes, i), o, {('parent',): ite(used & lf, NULL, o.num('parent'))})])
    # joining
    acc = [(S(s), n) for key, (i0, s, n) in J.mus.items() if n is not None and E.isnum(s) and same(i0, m)]
    lst = local_list(J, cnt)
    pool_ = entry_of(J, 'self.m_nodes')
    if not c.ob('rebuild', 'joining starts with all collected proxies', len(acc) == 1 and lst is not None and pool_ is not None, ''):
        return
    n, nn = acc[0]
    live = n > S(E.ONE)
    g = S(J.guard) & live
    c.ob('rebuild', 'joining goes on until one tree is left', E.AND(J.e.info['back_pc'], J.guard) == g.n, E.show(J.e.info['back_pc'], 3))
    c.ob('rebuild', 'each join replaces two by one', same(E.constrain(nn, g.n), E.constrain((n - 1).n, g.n)), E.show(nn, 3))
    lists = lst[1]
    outer = inner(J)
    if not c.ob('rebuild', 'one search per join', len(outer) == 1 and len(inner(outer[0])) == 1, '%d' % len(outer)):
        return
    O = outer[0]
    I = inner(O)[0]
    ko = index_over(c, 'first of the pair', O, Z, n, g)
    if not ko:
        return
    a, alive = ko
    ki = index_over(c, 'second of the pair', I, a + 1, n, g & alive)
    if not ki:
        return
    b, blive = ki
    at = lambda q: S(E.like(Obj(term(('proj', lists.n, ('i', nd(q))))).n, E.ZERO))
    cost = perimeter(union(box(row(pool_, at(a))), box(row(pool_, at(b)))))
    got = {}
    for key, (i0, s, nx) in I.mus.items():
        if nx is not None and E.isnum(s) and s != b.n:
            got[E.showloc(*key)] = (i0, S(s), nx)
    best = [q for q in got.values() if same(E.constrain(q[2], (g & alive & blive).n), E.constrain(smin(q[1], cost).n, (g & alive & blive).n))
            or same(E.constrain(q[2], (g & alive & blive).n), E.constrain(ite(cost < q[1], cost, q[1]).n, (g & alive & blive).n))]
    if not c.ob('rebuild', 'the search keeps the least cost', len(best) == 1, str({kk: E.show(q[2], 4)[:100] for kk, q in got.items()})):
        return
    bc = best[0]
    less = cost < bc[1]
    uu = (g & alive & blive).n
    pair = []
    for lab, want in (('first', a), ('second', b)):
        hit = [q for q in got.values() if q is not bc and same(E.constrain(q[2], uu), E.constrain(ite(less, want, q[1]).n, uu))]
        c.ob('rebuild', 'the search keeps the %s of the cheapest pair' % lab, len(hit) == 1, '%d' % len(hit))
        pair += hit[:1]
    if len(pair) != 2:
        return
    outs = []
    for q in (bc, *pair):
        # the outer pass hands the inner pass's results on, starting afresh for each join
        o2 = [(i0, S(s), nx) for key, (i0, s, nx) in O.mus.items() if nx is not None and s == q[0]]
        c.ob('rebuild', 'the search carries its result from row to row', len(o2) == 1 and same(E.constrain(o2[0][2], (g & alive).n), E.constrain(q[1].n, (g & alive).n)), str(len(o2)))
        outs += o2[:1]
    if len(outs) != 3:
        return
    init = outs[0][0]
    c.ob('rebuild', 'every join starts its search afresh', is_term(init) and nd(S(init) < S(E.const(10 ** 30))) == FALSE, E.show(init, 3))
    ia, ib = at(outs[1][1]), at(outs[2][1])
    expect_calls(c, 'rebuild', 'joining', J.sub, 'alloc', [((me.ptr(),), S(TRUE))], under=g)
    new = sym('new').num()
    X, Y = row(pool_, ia), row(pool_, ib)
    w = {('aabb',) + kk: v for kk, v in zip(BOX, union(box(X), box(Y)))}
    w.update({('child1',): ia, ('child2',): ib, ('parent',): NULL, ('height',): smax(X.num('height'), Y.num('height')) + 1})
    tail = lambda q, par: dict([(('aabb',) + kk, v) for kk, v in zip(BOX, box(q))] + [(('parent',), par), (('child1',), q.num('child1')), (('child2',), q.num('child2')), (('height',), q.num('height'))])
    es = []
    for x in J.sub:
        loc = E.showloc(*x.loc) if x.kind == 'write' else ''
        if x.kind == 'write' and loc in (E.showloc(*locof(row(nodes, ia))), E.showloc(*locof(row(nodes, ib)))):
            # the whole node is stored: its links and box are compared below
            q = X if loc == E.showloc(*locof(row(nodes, ia))) else Y
            for kk, v in tail(q, new).items():
                got_ = r.value(x.value, kk, like=v.n)
                c.ob('rebuild', 'joining: %s of a joined tree' % '.'.join(kk), same(E.constrain(got_, g.n), E.constrain(v.n, g.n)), E.show(got_, 3)[:200])
            for kk in ('user_data', 'moved'):
                got_ = r.value(x.value, (kk,))
                c.ob('rebuild', 'joining keeps the %s of a joined tree' % kk, same(got_, q.bool(kk) if kk == 'moved' else q.at(kk).n), E.show(got_, 3)[:200])
        elif x.kind == 'write':
            es.append(x)
    row_writes(c, 'rebuild', 'joining', r, es, g, [(row(nodes, new), Fresh(row(pool_, new)), w)] + [(row(nodes, q), row(pool_, q), {}) for q in (ia, ib)])
    for lab, q in (('first', ia), ('second', ib)):
        v = E.constrain(r.value(E.constrain(entries(J)['self.m_nodes'][2], g.n), (('i', q.n), 'parent')), g.n)
        c.ob('rebuild', 'the new node is the parent of the ' + lab, same(v, E.constrain(new.n, g.n)), E.show(v, 3)[:200])
    for lab, q, v in (('the joined tree takes the place of the first', outs[1][1], new), ('the last tree takes the place of the second', outs[2][1], at(n - 1))):
        got_ = E.constrain(r.value(E.constrain(lst[2], g.n), (('i', q.n),)), g.n)
        c.ob('rebuild', lab, same(got_, E.constrain(v.n, g.n)), E.show(got_, 3)[:200])
    v = r.value(me.ptr(), ('m_root',))
    done = ~(n > S(E.ONE))
    w = ite(n > Z, at(Z), NULL)
    c.ob('rebuild', 'the last tree is the root, and a tree without proxies is empty', same(E.constrain(v, done.n), E.constrain(w.n, done.n)), E.show(v, 3))
    expect_calls(c, 'rebuild', 'afterwards', r.effects, 'validate', [((me.ptr(),), S(TRUE))])
    c.ob('rebuild', 'rebuilding itself never fails', fails_beyond(deep_panics(r.effects)) == FALSE, E.show(deep_panics(r.effects).n, 4)[:200])
    top = [x for x in r.effects if x.kind == 'write' and outside(x) and E.showloc(*x.loc) != 'self.m_root']
    c.ob('rebuild', 'nothing else changes', not top, str([str(x)[:80] for x in top]))


def self_check(c, P):
    me, i = sym('self'), sym('id').num()
    nodes, cap, root = me.at('m_nodes'), me.num('m_node_capacity'), me.num('m_root')
    Z = S(E.ZERO)
    o = row(nodes, i)
    a, b = o.num('child1'), o.num('child2')
    A, B = row(nodes, a), row(nodes, b)
    inr = lambda q: ~(q < Z) & (q < cap)
    null = i.eq(NULL)
    lf = leaf(o)
    # well-formed as the property states it
    fine = ite(lf, b.eq(NULL) & o.num('height').eq(Z), inr(a) & inr(b))
    links = ~(i.eq(root) & ~o.num('parent').eq(NULL)) & fine & (lf | (A.num('parent').eq(i) & B.num('parent').eq(i)))
    exact = fine & (lf | o.num('height').eq(smax(A.num('height'), B.num('height')) + 1))
    for w, v in zip(box(o), union(box(A), box(B))):
        exact = exact & (lf | w.eq(v))
    for name, ok in (('validate_structure', links), ('validate_metrics', exact)):
        # recursion goes through the method; the analysed body is the one behind it
        r = summarise(c, P, TP + name, names=['self', 'id'], hooks={T + name: record('below'), TP + name: record('below')})
        good = null | ok
        c.ob('check', name + ': a well-formed node passes', E.AND(deep_panics(r.effects).n, good.n) == FALSE, E.show(E.AND(deep_panics(r.effects).n, good.n), 5)[:300])
        c.ob('check', name + ': a malformed node does not', E.AND(deep_panics(r.effects).n, (~good).n) == (~good).n, show_difference(E.AND(deep_panics(r.effects).n, (~good).n), (~good).n, 4)[:300])
        expect_calls(c, 'check', name, r.effects, 'below', [((me.ptr(), a.n), ~null & ~lf), ((me.ptr(), b.n), ~null & ~lf)], under=good)
        expect_changes(c, 'check', name, r, {}, under=good)
        r = summarise(c, P, T + name, names=['self', 'id'], hooks={TP + name: record('it')})
        if calls(r.effects, 'it'):
            expect_calls(c, 'check', name, r.effects, 'it', [((me.ptr(), i.n), S(TRUE))])
    H = {T + 'compute_height_by_node': record('height below', lambda e, a_, n: sym('h', n).num().n)}
    r = summarise(c, P, TP + 'compute_height_by_node', names=['self', 'id'], hooks=H)
    ok = inr(i)
    u = ok
    expect_calls(c, 'check', 'height', r.effects, 'height below', [((me.ptr(), a.n), ~lf), ((me.ptr(), b.n), ~lf)], under=u)
    w = ite(lf, Z, smax(sym('h', 0).num(), sym('h', 1).num()) + 1)
    c.ob('check', 'height: one more than the taller child', same(E.constrain(r.ret, u.n), E.constrain(w.n, u.n)), E.show(r.ret, 4)[:200])
    c.ob('check', 'height: fails only for an unknown node', E.AND(panics(r).n, u.n) == FALSE, E.show(panics(r).n, 3))
    H = {k + 'compute_height_by_node': record('height below', lambda e, a_, n: sym('h', n).num().n) for k in (T, TP)}
    r = summarise(c, P, T + 'compute_height', names=['self'], hooks=H)
    expect_calls(c, 'check', 'tree height', r.effects, 'height below', [((me.ptr(), root.n), ~root.eq(NULL))])
    c.ob('check', 'tree height: that of the root, 0 if empty', same(r.ret, ite(root.eq(NULL), Z, sym('h', 0).num())), E.show(r.ret, 4)[:200])
    no_panic(c, 'check', 'tree height', r)
    H = {}
    for k in (T, TP):
        H[k + 'validate_structure'] = record('links')
        H[k + 'validate_metrics'] = record('exact')
        H[k + 'compute_height'] = record('computed', lambda e, a_, n: sym('computed').num().n)
        H[k + 'get_height'] = record('stored', lambda e, a_, n: sym('stored').num().n)
    r = summarise(c, P, T + 'validate', names=['self'], hooks=H)
    ls = loops(r)
    on = S(ls[0].guard) if ls else S(FALSE)
    expect_calls(c, 'check', 'tree', r.effects, 'links', [((me.ptr(), root.n), on)])
    expect_calls(c, 'check', 'tree', r.effects, 'exact', [((me.ptr(), root.n), on)])
    if c.ob('check', 'tree: one pass over the free nodes', len(ls) == 1, '%d' % len(ls)):
        L = ls[0]
        cur = [(S(s), n) for key, (i0, s, n) in L.mus.items() if n is not None and E.isnum(s) and same(i0, me.num('m_free_list'))]
        num = [(S(s), n) for key, (i0, s, n) in L.mus.items() if n is not None and E.isnum(s) and i0 == E.ZERO]
        if c.ob('check', 'tree: free nodes are counted from the first', len(cur) == 1 and len(num) == 1, ''):
            (m, nx), (k, nk) = cur[0], num[0]
            u = S(L.guard) & ~m.eq(NULL) & inr(m)
            c.ob('check', 'tree: the pass follows the free nodes', same(E.constrain(nx, u.n), E.constrain(row(nodes, m).num('parent').n, u.n)), E.show(nx, 3))
            c.ob('check', 'tree: each free node counts once', same(E.constrain(nk, u.n), E.constrain((k + 1).n, u.n)), E.show(nk, 3))
            c.ob('check', 'tree: to the last free node', E.AND(L.e.info['back_pc'], (S(L.guard) & (m.eq(NULL) | inr(m))).n) == u.n, E.show(L.e.info['back_pc'], 3))
            good = sym('computed').num().eq(sym('stored').num()) & (me.num('m_node_count') + k).eq(cap)
            bad = FALSE
            for x in r.effects:
                if x.kind == 'panic':
                    bad = E.OR(bad, x.guard)
            out = S(OR_exits(L))
            c.ob('check', 'tree: an exact tree passes', E.AND(bad, (good & out).n) == FALSE, E.show(E.AND(bad, good.n), 4)[:200])
            no = ~good & out & on
            c.ob('check', 'tree: an inexact tree does not', E.AND(bad, no.n) == no.n, E.show(bad, 4)[:200])
    expect_changes(c, 'check', 'tree', r, {})


def index_over(c, lab, L, start, n, g):
    """counter of a pass from start to n-1."""
    for key, (i, s, nx) in L.mus.items():
        if nx is None or not E.isnum(s):
            continue
        m = S(s)
        live = m < n
        if same(E.constrain(i, g.n), E.constrain(start.n, g.n)) and same(E.constrain(nx, (g & live).n), E.constrain((m + 1).n, (g & live).n)):
            ok = E.AND(L.e.info['back_pc'], g.n) == (g & live).n and E.AND(L.guard, g.n) == g.n
            c.ob('rebuild', 'the %s ranges over the rest' % lab, ok, E.show(L.e.info['back_pc'], 3)[:200])
            return m, live
    c.ob('rebuild', 'the %s ranges over the rest' % lab, False, str([E.show(i, 3)[:60] for i, s, x in L.mus.values()]))
