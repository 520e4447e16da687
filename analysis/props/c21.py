"""Shifting the world origin."""
from ..spec import *
from .worldlib import *
from .c03 import k_
from .c36 import KINDS

W = 'b2_world::B2world::<D>::'
BP = 'b2_broad_phase::B2broadPhase::<UserDataType>::'
TR = 'b2_dynamic_tree::B2dynamicTree::<UserDataType>::'
JS = 'b2_joint::B2jointTraitDyn::shift_origin'
MOVED = {'B2mouseJoint': ('m_target_a',), 'B2pulleyJoint': ('m_ground_anchor_a', 'm_ground_anchor_b')}


def check(c):
    P = c.P
    o = sym('o').vec()
    w = sym('world')
    c.rule('world', 'the shift is subtracted from every body position, every joint and the broad-phase, and refused in a locked world')
    r = summarise(c, P, W + 'shift_origin', names=['world', 'o'], hooks={JS: record('joint'), BP + 'shift_origin': record('broad phase')})
    np = ~panics(r)
    c.ob('world', 'refused exactly when locked', panics_top(r).n == w.bool('m_locked').n, E.show(panics_top(r).n, 4))
    head = w.at('m_body_list', 'head')
    L = pick(c, 'world', 'bodies', loops(r), head)
    if L:
        k = walk(c, 'world', 'bodies', L, head, ('m_next',), S(TRUE), np)
        if k:
            b, live = k
            want = {}
            for q in (('m_xf', 'p'), ('m_sweep', 'c'), ('m_sweep', 'c0')):
                for ax in 'xy':
                    want[q + (ax,)] = b.num(*q, ax) - getattr(o, ax)
            iteration_writes(c, 'world', 'bodies', L, b, want, live & np)
    head = w.at('m_joint_list', 'head')
    L = pick(c, 'world', 'joints', loops(r), head)
    if L:
        k = walk(c, 'world', 'joints', L, head, ('base', 'm_next'), S(TRUE), np)
        if k:
            j, live = k
            expect_calls(c, 'world', 'joints', L.sub, 'joint', [((j.ptr(), sym('o').n), live)], under=np & live)
    c.ob('world', 'joints are shifted once', not calls(r.effects, 'joint'), '')
    expect_calls(c, 'world', 'boxes', r.effects, 'broad phase', [((w.ptr('m_contact_manager', 'm_broad_phase'), sym('o').n), S(TRUE))], under=np)
    expect_changes(c, 'world', 'world', r, {}, under=np)

    c.rule('boxes', 'every box in use of the broad-phase moves by the shift, and nothing else of it changes')
    for path, pre in ((BP, ('m_tree',)), (TR, ())):
        r = summarise(c, P, path + 'shift_origin', names=['self', 'o'])
        t = sym('self')
        lab = 'broad phase' if pre else 'tree'
        nodes = t.at(*pre, 'm_nodes')
        ls = [L for L in loops(r)]
        c.ob('boxes', lab + ': one pass', len(ls) == 1, '%d passes' % len(ls))
        np = ~panics(r)
        c.ob('boxes', lab + ': never fails', E.AND(panics_top(r).n, TRUE) == FALSE, E.show(panics_top(r).n, 3))
        for L in ls[:1]:
            bound = t.num(*pre, 'm_node_capacity')
            ix = index_of(L, [bound, S(E.like(t.at(*pre, 'm_nodes', 'len').n, E.ZERO))])
            c.ob('boxes', lab + ': visits every node', ix is not None, str([(E.show(i, 2)[:40], E.show(n, 3)[:90] if n is not None else '') for i, s, n in L.mus.values()])[:300])
            if ix is None:
                continue
            i, live = ix
            got = {}
            for x in writes(L.sub):
                if not outside(x) or E.AND(x.guard, live.n) == FALSE:
                    continue
                loc = x.loc
                keys = loc[1]
                tail = keys[len(pre) + 1:]
                c.ob('boxes', lab + ': writes only the visited node', keys[:len(pre) + 1] == pre + ('m_nodes',) and len(tail) > 1 and tail[0] == ('i', i.n), E.showloc(*loc))
                for ks, v in parts(x.value, tuple(tail[1:])):
                    got[ks] = (x.guard, v)
            cur = [s for k, (_, s, n) in L.mus.items() if E.showloc(*k) == '.'.join(('self',) + pre + ('m_nodes',))]
            c.ob('boxes', lab + ': node contents', len(cur) == 1, '')
            if len(cur) != 1:
                continue
            for q in ('lower_bound', 'upper_bound'):
                for ax in 'xy':
                    g = got.pop(('aabb', q, ax), None)
                    ok = False
                    if g:
                        base = nolen(cur[0])
                        old = Obj(base).at(('i', i.n), 'aabb', q, ax).num()
                        used = ~(Obj(base).at(('i', i.n), 'height').num() < S(E.ZERO))
                        u = (used & live).n
                        ok = E.AND(g[0], u) == u and same(E.constrain(g[1], u), E.constrain((old - getattr(o, ax)).n, u))
                    c.ob('boxes', '%s: %s.%s moves' % (lab, q, ax), ok, 'stores %s' % (E.show(g[1], 4)[:200] if g else 'nothing'))
            c.ob('boxes', lab + ': nothing else of a node changes', not got, str(list(got)))
        bad = [E.showloc(*x.loc) for x in writes([y for y in r.effects if y.kind != 'loop']) if outside(x)]
        c.ob('boxes', lab + ': nothing else changes', not bad, str(bad[:3]))

    c.rule('joints', 'joints with anchors in the world move them by the shift, all others keep all their values')
    n = 0
    impls = {(P.types[im['self']].get('p') or '').split('::')[-1]: im for im in P.impls if (im.get('trait') or '').split('::')[-1].startswith('B2jointTraitDyn')}
    for name, im in sorted(impls.items()):
        uid = [u for q, u, _ in im['items'] if q == 'shift_origin']
        f = P.fns[uid[0]] if uid and uid[0] in P.fns else None
        path = f['path'] if f else JS
        r = summarise(c, P, path, names=['self', 'o'])
        me = sym('self')
        expect_changes(c, 'joints', name, r, {'self.' + q: me.vec(q) - o for q in MOVED.get(name, ())})
        no_panic(c, 'joints', name, r)
        n += 1
    c.floor('joint kinds', n, 10)


def index_of(L, bounds):
    """a counter from 0 to one of the bounds without early exit."""
    back = L.e.info['back_pc']
    fine = E.AND(L.guard, (~panics_in(L)).n)
    for key, (i, m, nx) in L.mus.items():
        if nx is None or not E.isnum(m) or not E.isnum(i) or i != E.ZERO or E.constrain(nx, back) != E.add(m, E.ONE):
            continue
        for b in bounds:
            live = S(m) < b
            if E.AND(back, fine) == E.AND(live.n, fine) and all(E.AND(E.AND(x, fine), live.n) == FALSE for x in L.exits):
                return S(m), live
    return None
