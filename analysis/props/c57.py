"""Tearing a world down takes bounded stack."""
from ..spec import *
from .worldlib import *
from ..check import AnchorMissing

LISTS = ('b2rs_double_linked_list::DoubleLinkedList', 'b2rs_linked_list::LinkedList')
NEXT = {'b2_body::B2body': ('m_next',), 'b2_contact::B2contactDynTrait': ('base', 'm_next'), 'b2_joint::B2jointTraitDyn': ('base', 'm_next'),
        'b2_contact::B2contactEdge': ('next',), 'b2_joint::B2jointEdge': ('next',), 'b2_fixture::B2fixture': ('m_next',)}


def wiped(x, node, nx, on):
    """does the effect x empty the link of the node whenever the loop goes on?"""
    return x.kind == 'write' and E.showloc(*x.loc) == E.show(node.at(*nx).n) and S(x.value).n == NONE.n and E.AND(on, E.NOT(x.guard)) == FALSE


def unlinks(lp, head, nx):
    """does the loop visit every node from the head on, detaching each from its successor before letting it go?"""
    for kk, (i, m, n) in lp.mus.items():
        if n is None:
            continue
        cur = Obj(m)
        node = cur.at(*SOME)
        going = (~isnone(cur)).n
        if i != head.n or E.AND(E.NOT(going), lp.e.info['back_pc']) != FALSE:
            continue
        if any(E.AND(x, going) != FALSE for x in lp.exits):
            continue
        if E.constrain(n, going) != node.at(*nx).n:
            continue
        if any(wiped(x, node, nx, going) for x in flatten(lp.e.sub)):
            return True
    return False


def flatten(es):
    for x in es:
        yield x
        yield from flatten(x.sub or ())


def releases(c, P, path, head, nx, sub=None):
    r = summarise(c, P, path, names=['self'], **({'sub': sub} if sub else {}))
    return any(S(l.e.guard).n == TRUE and unlinks(l, head, nx) for l in loops(r)), r


def check(c):
    P = c.P
    rule = 'release'
    c.rule(rule, 'whatever owns a list of linked objects lets them go one by one when it is dropped, detaching each from the next first')
    paths = {f['path'] for f in (P.fns.values() if isinstance(P.fns, dict) else P.fns)}
    me = sym('self')
    found = 0
    for p, a in sorted(P.adts.items()):
        for v in a['v']:
            for name, ty, _ in v['f']:
                t = P.types[ty]
                if t['k'] != 'adt' or t.get('p') not in LISTS:
                    continue
                nt = P.types[t['a'][0]]
                nx = NEXT.get(nt.get('p'))
                what = '%s %s' % (p.split('::')[-1], name)
                if not c.ob(rule, what + ' holds known objects', nx is not None, nt['s']):
                    continue
                found += 1
                ok = False
                why = 'no release when dropped'
                for q in paths:
                    if not q.endswith(' as std::ops::Drop>::drop'):
                        continue
                    if q.startswith('<' + p + '<'):
                        ok, r = releases(c, P, q, me.at(name, 'head'), nx)
                        why = 'the drop leaves the chain to be released recursively'
                    elif q.startswith('<' + t['p'] + '<') and not ok:
                        ok, r = releases(c, P, q, me.at('head'), nx, sub={'T': t['a'][0]})
                    if ok:
                        c.ob(rule, what + ' release cannot fail', panics(r).n == FALSE, E.show(panics(r).n, 4))
                        break
                c.ob(rule, what + ' is released one by one', ok, why)
    c.floor('lists', found, 6)
