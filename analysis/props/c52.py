"""Pair finding: every proxy that moved is searched once and every overlapping pair is reported."""
from ..spec import *
from .worldlib import *
from .c18 import every, deep_panics
from .c20 import BOX, box, union, leaf, row, NULL, index_over
from .c27 import stack_hooks, pending, pushes, stops, overlap, box as corners, B, T, number

TP = 'private::collision::b2_dynamic_tree::'
BP = 'private::collision::b2_broad_phase::b2_broad_phase_'


def list_at(lst, i):
    return S(E.like(Obj(term(('proj', lst.n, ('i', nd(i))))).n, E.ZERO))


def proxies(c, P):
    me, idn = sym('self'), sym('id').num()
    tree = place(me, 'm_tree')
    H = {}
    for k in (T, TP):
        H[k + 'create_proxy'] = record('tree create', lambda e, a, n: sym('new').num().n)
        H[k + 'destroy_proxy'] = record('tree destroy')
        H[k + 'move_proxy'] = record('tree move', lambda e, a, n: sym('replaced').bool().n)
    for k, v in (('buffer_move', record('queue')), ('un_buffer_move', record('unqueue'))):
        H[B + k] = H[BP + k] = v
    cnt = me.num('m_proxy_count')
    for name, names, want, chg, ret in (
            ('create_proxy', ['self', 'box', 'data'], [('tree create', (tree, None, None), S(TRUE)), ('queue', (me.ptr(), sym('new').num().n), S(TRUE))], {me.at('m_proxy_count'): cnt + 1}, sym('new').num().n),
            ('destroy_proxy', ['self', 'id'], [('unqueue', (me.ptr(), idn.n), S(TRUE)), ('tree destroy', (tree, idn.n), S(TRUE))], {me.at('m_proxy_count'): cnt - 1}, None),
            ('move_proxy', ['self', 'id', 'box', 'd'], [('tree move', (tree, idn.n, None, None), S(TRUE)), ('queue', (me.ptr(), idn.n), sym('replaced').bool())], {}, None),
            ('touch_proxy', ['self', 'id'], [('queue', (me.ptr(), idn.n), S(TRUE))], {}, None)):
        r = summarise(c, P, B + name, names=names, hooks=H)
        seen = set()
        for nm, a, cond in want:
            expect_calls(c, 'queue', name, r.effects, nm, [(a, cond)])
            seen.add(nm)
        for x in every(r.effects):
            if x.kind == 'call' and x.name not in seen:
                c.ob('queue', name + ': nothing else happens', False, x.name)
        for x in calls(r.effects, 'tree create') + calls(r.effects, 'tree move'):
            at = 1 if name == 'create_proxy' else 2
            for k in BOX:
                v = r.value(x.args[at], k, mem=x.mem)
                c.ob('queue', '%s: the tree gets the box, %s' % (name, ' '.join(k)), same(v, sym('box').num(*k)), E.show(v, 3))
            if name == 'move_proxy':
                for k in ('x', 'y'):
                    v = r.value(x.args[3], (k,), mem=x.mem)
                    c.ob('queue', 'move_proxy: the tree gets the displacement, ' + k, same(v, sym('d').num(k)), E.show(v, 3))
            else:
                c.ob('queue', 'create_proxy: the tree gets the owner', x.args[2] in (sym('data').n, sym('data').ptr()), E.show(x.args[2], 3))
        expect_changes(c, 'queue', name, r, chg)
        no_panic(c, 'queue', name, r)
        if ret is not None:
            c.ob('queue', name + ' returns the new proxy', same(r.ret, ret), E.show(r.ret, 3))

    n, cap = me.num('m_move_count'), me.num('m_move_capacity')
    buf = me.at('m_move_buffer')
    r = summarise(c, P, B + 'buffer_move', names=['self', 'id'])
    full = n.eq(cap)
    v = r.value(me.ptr(), ('m_move_buffer', ('i', n.n)))
    c.ob('queue', 'the proxy is put at the end', same(v, idn), E.show(v, 3))
    v = r.value(me.ptr(), ('m_move_count',))
    c.ob('queue', 'one more is queued', same(v, n + 1), E.show(v, 3))
    v = r.value(me.ptr(), ('m_move_capacity',))
    c.ob('queue', 'a full queue doubles', same(v, ite(full, cap * 2, cap)), E.show(v, 3))
    v = r.value(me.ptr(), ('m_move_buffer', 'len'))
    c.ob('queue', 'a full queue gets room', same(E.constrain(r.eng.coerce_num(v), full.n), E.constrain((cap * 2).n, full.n)), E.show(v, 3))
    bad = [x for x in writes(r.effects) if outside(x) and E.showloc(*x.loc) not in ('self.m_move_count', 'self.m_move_capacity', 'self.m_move_buffer') and not E.showloc(*x.loc).startswith('self.m_move_buffer.[self.m_move_count]')]
    c.ob('queue', 'queueing changes nothing else', not bad, str(bad)[:200])
    no_panic(c, 'queue', 'queueing', r)
    r = summarise(c, P, B + 'un_buffer_move', names=['self', 'id'])
    ls = loops(r)
    if c.ob('queue', 'unqueueing is one pass', len(ls) == 1, '%d' % len(ls)):
        L = ls[0]
        k = counted(c, 'queue', 'unqueueing', L, n)
        lst = entry_of(L, 'self.m_move_buffer')
        if k and c.ob('queue', 'unqueueing edits the queue', lst is not None, str([E.showloc(*q) for q in L.mus])):
            i, live = k
            u = (S(L.guard) & live).n
            nx = [n_ for key, (i0, s, n_) in L.mus.items() if E.showloc(*key) == 'self.m_move_buffer'][0]
            v = E.constrain(r.eng.coerce_num(r.value(E.constrain(nx, u), (('i', i.n),))), u)
            w = ite(list_at(lst, i).eq(idn), NULL, list_at(lst, i))
            c.ob('queue', 'every entry of the proxy is voided, others are kept', same(v, E.constrain(w.n, u)), E.show(v, 4)[:200])
            bad = [x for x in writes(L.sub) if outside(x) and E.showloc(*x.loc) != 'self.m_move_buffer.[%s]' % E.showloc(*locof(row(sym('q'), i)))[3:-1]]
            c.ob('queue', 'unqueueing touches the visited entry only', not bad, str([str(x)[:120] for x in bad]))
    c.ob('queue', 'unqueueing changes nothing else', not [x for x in r.effects if x.kind in ('write', 'call', 'panic')], '')


def pairs(c, P):
    me = sym('self')
    tree = me.at('m_tree')
    H = dict(stack_hooks())
    H['b2_broad_phase::AddPairTrait::add_pair'] = record('report')
    r = summarise(c, P, B + 'update_pairs', names=['self', 'cb'], hooks=H)
    e = r.eng
    n = me.num('m_move_count')
    buf = me.at('m_move_buffer')
    ls = loops(r)
    if not c.ob('pairs', 'search, report and clean up: three passes', len(ls) == 3, '%d' % len(ls)):
        return
    Q, R, C = ls
    c.ob('pairs', 'all passes always run', Q.guard == R.guard == C.guard == TRUE, '')
    # search
    k = counted(c, 'pairs', 'searching', Q, n)
    if not k:
        return
    i, live = k
    for key, (i0, s, nx) in Q.mus.items():
        if E.showloc(*key) == 'self.pairs.m_pair_count':
            c.ob('pairs', 'the pair list starts empty', i0 == E.ZERO, E.show(i0, 3))
            qcount = nx
    q = list_at(buf, i)
    due = live & ~q.eq(NULL)
    ins = inner(Q)
    if not c.ob('pairs', 'one search per moved proxy', len(ins) == 1, '%d' % len(ins)):
        return
    L = ins[0]
    c.ob('pairs', 'every queued proxy is searched', L.guard == due.n, E.show(L.guard, 4)[:200])
    it = [x for x in Q.sub if x is not L.e and x.kind in ('write', 'call', 'panic') and (x.kind != 'write' or outside(x))]
    c.ob('pairs', 'a search pass does nothing else', not it, str([str(x)[:100] for x in it]))

    class One:
        effects = [L.e]
    k = pending(c, 'pairs', 'search', One, tree.at('m_root'))
    if not k:
        return
    L, key, top, alive = k
    o = row(tree.at('m_nodes'), top)
    Qn = row(tree.at('m_nodes'), q)
    hit = ~top.eq(NULL) & overlap(corners(o, 'aabb'), corners(Qn, 'aabb'))
    lf = leaf(o)
    g = S(L.guard) & alive
    fine = ~deep_panics(L.sub)
    c.ob('pairs', 'a search never fails', deep_panics(L.sub).n == FALSE, E.show(deep_panics(L.sub).n, 3)[:200])
    stops(c, 'pairs', 'search', L, g, S(L.guard), S(FALSE))
    pushes(c, 'pairs', 'search', L.sub, [(o.num('child1'), hit & ~lf), (o.num('child2'), hit & ~lf)], g)
    add = hit & lf & ~top.eq(q) & ~(o.bool('moved') & (top > q))
    pc = entry_num(L, 'self.pairs.m_pair_count')
    cap = entry_num(L, 'self.pairs.m_pair_capacity')
    pb = entry_of(L, 'self.pairs.m_pair_buffer')
    if not c.ob('pairs', 'pairs are appended to a list', pc is not None and cap is not None and pb is not None, str([E.showloc(*z) for z in L.mus])):
        return
    nx = {E.showloc(*kk): v[2] for kk, v in L.mus.items()}
    u = (g & add).n
    v = E.constrain(nx['self.pairs.m_pair_count'], g.n)
    c.ob('pairs', 'each overlapping pair is added once, by the later of two moved proxies', same(v, E.constrain(ite(add, pc + 1, pc).n, g.n)), show_difference(v, E.constrain(ite(add, pc + 1, pc).n, g.n), 4)[-300:])
    for f, w in (('proxy_id_a', smin(top, q)), ('proxy_id_b', smax(top, q))):
        v = E.constrain(e.coerce_num(r.value(E.constrain(nx['self.pairs.m_pair_buffer'], u), (('i', pc.n), f))), u)
        c.ob('pairs', 'a pair names both proxies: ' + f, same(v, E.constrain(w.n, u)), E.show(v, 4)[:200])
    full = g & add & pc.eq(cap)
    v = E.constrain(nx['self.pairs.m_pair_capacity'], full.n)
    grown = [cap * 2] + [cap + S(E.numapp(op, cap.n, E.const(x))) for op, x in (('shr', 1), ('Shr', 1), ('idiv', 2))]
    ok = [w for w in grown if same(v, E.constrain(w.n, full.n))]
    c.ob('pairs', 'a full pair list grows', len(ok) == 1, E.show(v, 4)[:200])
    v2 = E.constrain(e.coerce_num(r.value(E.constrain(nx['self.pairs.m_pair_buffer'], full.n), ('len',))), full.n)
    c.ob('pairs', 'a full pair list gets room for what it says', v == v2, E.show(v2, 4)[:200])
    v = E.constrain(nx['self.pairs.m_pair_capacity'], (g & ~full).n)
    c.ob('pairs', 'otherwise its capacity stays', same(v, E.constrain(cap.n, (g & ~full).n)), E.show(v, 4)[:200])
    here = 'self.pairs.m_pair_buffer.[%s]' % E.showloc(*locof(row(sym('q'), pc)))[3:-1]
    bad = [x for x in writes(L.sub) if outside(x) and not E.showloc(*x.loc).startswith(here) and E.showloc(*x.loc) not in ('self.pairs.m_pair_buffer', 'self.pairs.m_pair_count', 'self.pairs.m_pair_capacity')]
    c.ob('pairs', 'a search changes nothing but the pair list', not bad, str([str(x)[:140] for x in bad]))
    wide = [x for x in writes(L.sub) if E.showloc(*x.loc) == 'self.pairs.m_pair_buffer' and E.AND(x.guard, E.NOT(full.n)) != FALSE]
    c.ob('pairs', 'the list is replaced only when full', not wide, '')
    # between searches the list is handed on
    qe = {E.showloc(*kk): v for kk, v in Q.mus.items()}
    le = {E.showloc(*kk): v for kk, v in L.mus.items()}
    for f in ('self.pairs.m_pair_count', 'self.pairs.m_pair_buffer'):
        ok = f in qe and f in le and E.constrain(le[f][0], L.guard) == qe[f][1] and E.constrain(qe[f][2], due.n) == le[f][1] and E.constrain(qe[f][2], (live & ~due).n) == qe[f][1]
        c.ob('pairs', 'pairs found so far are kept: ' + f.split('_')[-1], ok, '')
    # report
    total = S(qe['self.pairs.m_pair_count'][1])
    k = counted(c, 'pairs', 'reporting', R, total)
    if k:
        j, jl = k
        pr = row(Obj(nolen(qe['self.pairs.m_pair_buffer'][1])), j)
        a = [row(tree.at('m_nodes'), pr.num(f)).at('user_data').n for f in ('proxy_id_a', 'proxy_id_b')]
        expect_calls(c, 'pairs', 'reporting', R.sub, 'report', [((sym('cb').ptr(), a[0], a[1]), S(TRUE))], under=jl)
        it = [x for x in R.sub if x.kind in ('write', 'panic') and (x.kind != 'write' or outside(x))]
        c.ob('pairs', 'reporting changes nothing', not it, str(it)[:200])
    # clean up
    k = counted(c, 'pairs', 'cleaning up', C, n)
    if k:
        j, jl = k
        q = list_at(buf, j)
        due = jl & ~q.eq(NULL)
        loc = E.showloc(*locof(row(tree.at('m_nodes'), q).at('moved')))
        got = FALSE
        for x in C.sub:
            if x.kind == 'write' and outside(x):
                ok = E.showloc(*x.loc) == loc and x.value == FALSE
                c.ob('pairs', 'cleaning up clears the movement mark of queued proxies', ok, str(x)[:200])
                got = E.OR(got, x.guard) if ok else got
        c.ob('pairs', 'cleaning up reaches every queued proxy', got == due.n, E.show(got, 4)[:200])
    v = r.value(me.ptr(), ('m_move_count',))
    c.ob('pairs', 'the queue is empty afterwards', same(v, E.ZERO), E.show(v, 3))
    top_ = [x for x in r.effects if x.kind == 'write' and outside(x) and E.showloc(*x.loc) not in ('self.m_move_count', 'self.pairs.m_pair_count')]
    c.ob('pairs', 'nothing else changes', not top_ and not [x for x in r.effects if x.kind in ('call', 'panic')], str(top_)[:200])


def entry_num(L, name):
    for kk, (i, s, n) in L.mus.items():
        if E.showloc(*kk) == name and E.isnum(s):
            return S(s)


def views(c, P):
    me = sym('self')
    tree = me.at('m_tree')
    nodes = tree.at('m_nodes')
    a, b = sym('a').num(), sym('b').num()
    r = summarise(c, P, B + 'test_overlap', names=['self', 'a', 'b'])
    c.ob('view', 'two proxies overlap exactly when their stored boxes do', same(r.ret, overlap(corners(row(nodes, a), 'aabb'), corners(row(nodes, b), 'aabb'))), E.show(r.ret, 4)[:200])
    expect_changes(c, 'view', 'overlap', r, {})
    r = summarise(c, P, B + 'get_user_data', names=['self', 'a'])
    c.ob('view', 'owner of a proxy', same(r.ret, row(nodes, a).at('user_data').n), E.show(r.ret, 3))
    r = summarise(c, P, B + 'get_fat_aabb', names=['self', 'a'])
    for k, w in zip(BOX, box(row(nodes, a))):
        v = r.value(r.ret, k)
        c.ob('view', 'stored box of a proxy, ' + ' '.join(k), same(v, w), E.show(v, 3))
    r = summarise(c, P, B + 'get_proxy_count', names=['self'])
    c.ob('view', 'number of proxies', same(r.ret, me.num('m_proxy_count')), E.show(r.ret, 3))
    for name, inner_ in (('get_tree_height', 'get_height'), ('get_tree_balance', 'get_max_balance'), ('get_tree_quality', 'get_area_ration')):
        H = {T + inner_: record('ask', lambda e, a_, n: sym('answer').num().n)}
        r = summarise(c, P, B + name, names=['self'], hooks=H)
        expect_calls(c, 'view', name, r.effects, 'ask', [((place(me, 'm_tree'),), S(TRUE))])
        c.ob('view', name + ' is the tree\'s', same(r.ret, sym('answer').num()), E.show(r.ret, 3))
    r = summarise(c, P, B + 'new', names=[])
    for k in ('m_proxy_count', 'm_move_count', ('pairs', 'm_pair_count')):
        v = r.value(r.ret, k if isinstance(k, tuple) else (k,))
        c.ob('view', 'a new broad phase is empty: %s' % (k if isinstance(k, str) else k[1]), same(v, E.ZERO), E.show(v, 3))
    for a_, b_ in ((('m_move_capacity',), ('m_move_buffer', 'len')), (('pairs', 'm_pair_capacity'), ('pairs', 'm_pair_buffer', 'len'))):
        v, w = r.value(r.ret, a_), r.value(r.ret, b_)
        c.ob('view', 'a new broad phase has the room it says: ' + a_[-1], v == w and nd(S(v) > S(E.ONE)) == TRUE, '%s %s' % (E.show(v, 3), E.show(w, 3)))
    no_panic(c, 'view', 'new', r)


def check(c):
    P = c.P
    c.rule('queue', 'a proxy is queued when created, when its stored box was replaced and when touched; a destroyed one leaves the queue')
    proxies(c, P)
    c.rule('pairs', 'each queued proxy is searched with its stored box, each overlapping pair is reported, and the queue and marks are cleared')
    pairs(c, P)
    c.rule('view', 'the broad phase answers from the stored boxes and the tree')
    views(c, P)
