"""Intrusive linked lists."""
from ..spec import *
from .worldlib import *

KINDS = [('body', ('adt', 'b2_body::B2body'), '', 'm_next', 'm_prev'), ('contact', ('dyn', 'b2_contact::B2contactDynTrait'), 'base', 'm_next', 'm_prev'),
         ('joint', ('dyn', 'b2_joint::B2jointTraitDyn'), 'base', 'm_next', 'm_prev'), ('contact edge', ('adt', 'b2_contact::B2contactEdge'), '', 'next', 'prev'),
         ('joint edge', ('adt', 'b2_joint::B2jointEdge'), '', 'next', 'prev')]


def tid(P, key):
    from ..check import AnchorMissing
    c = [i for i, t in enumerate(P.types) if t['k'] == key[0] and t.get('p') == key[1]]
    if not c:
        raise AnchorMissing('type %s' % key[1])
    return c[0]


def check(c):
    P = c.P
    c.rule('list', 'each list operation, for each kind of node, links exactly the specified neighbours and changes nothing else')
    s = sym('self')
    head = s.at('head')
    for nm, key, base, nx, pv in KINDS:
        pre = (base,) if base else ()
        sub = {'T': tid(P, key)}
        n = sym('node')

        def fld(o, f): return o.at(*(pre + (f,)))
        def nxt(o): return fld(o, nx)
        def prv(o): return fld(o, pv)
        first = deref(head)
        method(c, 'list', P, DL + 'push_front', ['self', 'node'], sub=sub, label='push %s' % nm, want={
            nxt(n): raw(head), prv(n): NONE, prv(first): ite(isnone(head), raw(prv(first)), some(n.ptr())), head: some(n.ptr())})
        before, after = deref(prv(n)), deref(nxt(n))
        atfront = ~isnone(head) & peq(head.ptr(*SOME), n.ptr())
        method(c, 'list', P, DL + 'remove', ['self', 'node'], sub=sub, label='remove %s' % nm, panic=S(TRUE), want={
            nxt(before): ite(isnone(prv(n)), raw(nxt(before)), raw(nxt(n))), prv(after): ite(isnone(nxt(n)), raw(prv(after)), raw(prv(n))),
            head: ite(atfront, raw(nxt(first)), raw(head))})
        method(c, 'list', P, DL + 'clear', ['self'], sub=sub, label='clear %ss' % nm, want={head: NONE})
        r = summarise(c, P, DL + 'iter', names=['self'], sub=sub)
        c.ob('list', 'iterating over %ss starts at the head' % nm, r.value(r.ret, ('next',)) == head.n, 'starts at %s' % E.show(r.ret, 4))
        it = s.at('next')
        r = method(c, 'list', P, '<b2rs_double_linked_list::Iter<T> as std::iter::Iterator>::next', ['self'], sub=sub, label='next %s' % nm,
                   want={it: ite(isnone(it), raw(it), raw(nxt(deref(it))))})
        c.ob('list', 'iteration yields the current %s' % nm, r.ret == ite(isnone(it), NONE, some(it.ptr(*SOME))).n, 'yields %s' % E.show(r.ret, 4))
    # fixtures: singly linked
    sub = {'T': tid(P, ('adt', 'b2_fixture::B2fixture'))}
    n = sym('node')
    method(c, 'list', P, SL + 'push_front', ['self', 'node'], sub=sub, label='push fixture', want={n.at('m_next'): raw(head), head: some(n.ptr())})
    method(c, 'list', P, SL + 'clear', ['self'], sub=sub, label='clear fixtures', want={head: NONE})
    r = summarise(c, P, SL + 'iter', names=['self'], sub=sub)
    c.ob('list', 'iterating over fixtures starts at the head', r.value(r.ret, ('next',)) == head.n, 'starts at %s' % E.show(r.ret, 4))
    it = s.at('next')
    r = method(c, 'list', P, '<b2rs_linked_list::Iter<T> as std::iter::Iterator>::next', ['self'], sub=sub, label='next fixture', want={it: ite(isnone(it), raw(it), raw(deref(it).at('m_next')))})
    c.ob('list', 'iteration yields the current fixture', r.ret == ite(isnone(it), NONE, some(it.ptr(*SOME))).n, 'yields %s' % E.show(r.ret, 4))
    r = summarise(c, P, SL + 'remove', names=['self', 'node'], sub=sub)
    ls = loops(r)
    if not c.ob('list', 'one search for the fixture', len(ls) == 1, '%d loops' % len(ls)):
        return
    front = ~isnone(head) & peq(head.ptr(*SOME), n.ptr())

    def follow(o): return o.at('m_next', *SOME)
    cand = [(kk, x) for kk, x in ls[0].mus.items() if x[2] is not None and E.constrain(x[0], S(ls[0].e.guard).n) == head.ptr(*SOME)]
    ok = False
    for kk, (i, m_, nx_) in cand:
        cur = Obj(payload(m_)[1][1]) if is_term(m_) and payload(m_)[0] == 'ptr' else Obj(m_)
        back = S(ls[0].e.info['back_pc'])
        go = ~isnone(cur.at('m_next')) & ~peq(cur.ptr('m_next', *SOME), n.ptr())
        ok = E.constrain(nx_, back.n) == cur.ptr('m_next', *SOME) and (back & ~go).n == FALSE and all(E.AND(x, go.n) == FALSE for x in ls[0].exits)
        if ok:
            break
    c.ob('list', 'the search stops at the predecessor of the fixture', ok, 'loop is %s' % [[E.show(y, 3)[:100] for y in x if y is not None] for _, x in cand])
    if not ok:
        return
    missing = isnone(head) | (~front & isnone(cur.at('m_next')))
    expect_changes(c, 'list', 'remove fixture', r, {head: ite(front, raw(deref(head).at('m_next')), raw(head)),
                   cur.at('m_next'): ite(~missing & ~front, raw(n.at('m_next')), raw(cur.at('m_next')))})
    c.ob('list', 'removing an absent fixture is rejected, any present one accepted', panics(r).n == missing.n, 'rejected when ' + E.show(panics(r).n, 4))
