"""Every pair of shape kinds is given the right contact and the right narrow-phase routine."""
from ..check import AnchorMissing
from ..spec import *
from .worldlib import *

REG = '<private::dynamics::b2_contact_registers::ContactRegisters<D> as std::default::Default>::default'
KINDS = ['circle', 'edge', 'polygon', 'chain']
SHAPE = {k: 'shapes::b2_%s_shape::B2%sShape' % (k, k) for k in KINDS}
# (first, second) -> routine
ROUTINE = {('circle', 'circle'): 'b2_collide_circles', ('polygon', 'circle'): 'b2_collide_polygon_and_circle', ('polygon', 'polygon'): 'b2_collide_polygons',
           ('edge', 'circle'): 'b2_collide_edge_and_circle', ('edge', 'polygon'): 'b2_collide_edge_and_polygon', ('chain', 'circle'): 'b2_collide_edge_and_circle',
           ('chain', 'polygon'): 'b2_collide_edge_and_polygon'}
DYN = 'b2_contact::B2contactDynTrait'


def check(c):
    P = c.P
    c.rule('kinds', 'each shape reports its own kind, is created with it and converts to itself only')
    c.rule('factory', 'the factory table maps each pair of kinds to a contact whose first fixture is the table\'s first kind')
    c.rule('routine', 'each contact evaluates its two fixtures\' shapes and children with the matching routine')
    for k in KINDS:
        for j in KINDS:
            r = summarise(c, P, '<%s as shapes::b2rs_to_derived_shape::ToDerivedShape>::as_%s' % (SHAPE[k], j), names=['self'])
            want = some(sym('self').ptr()).n if j == k else NONE.n
            c.ob('kinds', '%s seen as %s' % (k, j), r.ret == want, 'is ' + E.show(r.ret, 4))
        r = summarise(c, P, '<%s as shapes::b2rs_to_derived_shape::ToDerivedShape>::as_derived' % SHAPE[k], names=['self'])
        p = payload(r.ret)
        c.ob('kinds', '%s as its own kind' % k, p[0] == 'agg' and p[2] == 'As' + k.capitalize() and p[3] == (('0', sym('self').ptr()),), 'is ' + E.show(r.ret, 4))
        r = summarise(c, P, '<%s as b2_shape::B2shapeDynTrait>::get_type' % SHAPE[k], names=['self'])
        c.ob('kinds', '%s reports its kind' % k, r.ret == sym('self').at('base', 'm_type').n, 'is ' + E.show(r.ret, 4))
        r = summarise(c, P, '<%s as std::default::Default>::default' % SHAPE[k], names=[])
        t = r.value(r.ret, ('base', 'm_type'))
        p = payload(t)
        c.ob('kinds', 'a new %s has that kind' % k, p[0] == 'agg' and p[2] == 'E' + k.capitalize(), 'is ' + E.show(t, 3))
    r = summarise(c, P, REG, names=[], unroll=10)
    e = r.eng
    tab = e.field(r.ret, 's_registers')
    made = {}
    for i, a in enumerate(KINDS):
        for j, b in enumerate(KINDS):
            y = e.field(e.field(tab, ('i', E.const(i))), ('i', E.const(j)))
            f, pri = e.field(y, 'create_fcn'), e.field(y, 'primary')
            lab = '%s with %s' % (a, b)
            if (a, b) not in ROUTINE and (b, a) not in ROUTINE:
                c.ob('factory', lab + ': no contact', payload(f)[0] == 'proj' or f == NONE.n, 'has ' + E.show(f, 3))
                continue
            fn = payload(e.field(e.field(f, SOME[0]), '0')) if is_term(f) and payload(f)[0] == 'agg' and payload(f)[2] == 'Some' else ('none',)
            if not c.ob('factory', lab + ': a contact is registered', fn[0] == 'fn', 'has ' + E.show(f, 3)):
                continue
            prim = (a, b) in ROUTINE
            c.ob('factory', lab + ': order', pri == (TRUE if prim else FALSE), 'order flag %s' % E.show(pri, 3))
            made.setdefault((a, b) if prim else (b, a), []).append((lab, fn[1].strip("'")))
    for (a, b), fs in made.items():
        us = {u for _, u in fs}
        if c.ob('factory', '%s with %s: both orders make the same contact' % (a, b), len(us) == 1, str(sorted(us))):
            contact(c, P, a, b, us.pop())
    dispatch(c, P)


def contact(c, P, a, b, uid):
    lab = '%s with %s' % (a, b)
    fn = P.fns.get(uid) or next((f for f in P.fns.values() if f['uid'] == uid), None)
    if fn is None:
        raise AnchorMissing(uid)
    r = summarise(c, P, fn['path'], names=['fa', 'ia', 'fb', 'ib'], hooks={'b2_contact::B2contact::<D>::new': record('new', lambda e, x, n: sym('fresh base').n),
                  'b2_shape::B2shapeDynTrait::get_type': record('kind', lambda e, x, n: kind_of(a if x[0] == sym('fa').ptr('m_shape', *SOME) else b))})
    bad = panics(r) & ~isnone(sym('fa').at('m_shape')) & ~isnone(sym('fb').at('m_shape'))
    c.ob('factory', lab + ': fixtures of these kinds are accepted', bad.n == FALSE, 'rejected when ' + E.show(bad.n, 4))
    for x in calls(r.effects, 'new'):
        c.ob('factory', lab + ': built from the given fixtures and children', x.args == [sym('fa').ptr(), sym('ia').num().n, sym('fb').ptr(), sym('ib').num().n], '%s' % [E.show(y, 3) for y in x.args])
    v = r.value(r.ret, ())
    p = payload(v)
    if not c.ob('factory', lab + ': makes a contact', p[0] == 'agg', E.show(v, 3)):
        return
    c.ob('factory', lab + ': made from the fresh base', e_(r, v, 'base') == sym('fresh base').n, E.show(e_(r, v, 'base'), 3))
    adt = p[1]
    tr = '<%s<D> as %s<D>>::' % (adt, DYN)
    for g in ('get_base', 'get_base_mut'):
        q = summarise(c, P, tr + g, names=['self'])
        c.ob('factory', lab + ': ' + g, q.ret == place(sym('self'), 'base'), E.show(q.ret, 3))
    hooks = {}
    for k in KINDS:
        hooks['shapes::b2rs_to_derived_shape::ToDerivedShape::as_' + k] = record('as ' + k, lambda e, x, n: some(x[0]).n)
    for n in set(ROUTINE.values()):
        hooks['b2_collision::' + n] = record(n)

    def child(e, fr, st, args, tys, dt, line, fop):
        from ..engine import UNIT
        record('child edge')(e, fr, st, args, tys, dt, line, fop)
        e.store(st, args[1], sym('child').n, fr)
        return UNIT
    hooks['shapes::b2_chain_shape::B2chainShape::get_child_edge'] = child
    r = summarise(c, P, tr + 'evaluate', names=['self', 'm', 'xa', 'xb'], hooks=hooks)
    k = sym('self').at('base')
    sa, sb = k.ptr('m_fixture_a', 'm_shape', *SOME), k.ptr('m_fixture_b', 'm_shape', *SOME)
    np = ~panics(r)
    ok = S(TRUE)
    for kind in KINDS:
        w = [((sh,), ok) for sh, kk in ((sa, a), (sb, b)) if kk == kind]
        expect_calls(c, 'routine', lab, r.effects, 'as ' + kind, w, under=np)
    first = sa
    if a == 'chain':
        xs = calls(r.effects, 'child edge')
        if c.ob('routine', lab + ': one child edge', len(xs) == 1, str(len(xs))):
            x = xs[0]
            c.ob('routine', lab + ': the contact\'s own child edge', x.args[0] == sa and x.args[2] == k.num('m_index_a').n and E.AND(x.guard, np.n) == np.n, '%s' % [E.show(y, 3) for y in x.args])
            first = x.args[1]
    for n in sorted(set(ROUTINE.values())):
        w = [((sym('m').ptr(), first, sym('xa').ptr(), sb, sym('xb').ptr()), ok)] if n == ROUTINE[(a, b)] else []
        expect_calls(c, 'routine', lab, r.effects, n, w, under=np)
    if a == 'chain':
        for x in calls(r.effects, ROUTINE[(a, b)]):
            v = r.value(x.args[1], (), mem=x.mem)
            c.ob('routine', lab + ': the child edge is passed unchanged', v == sym('child').n, E.show(v, 3))
    expect_changes(c, 'routine', lab + ' (besides the routine\'s result)', r, {}, under=np)


def kind_of(k): return term(('agg', 'b2_shape::B2ShapeType', 'E' + k.capitalize(), ()))


def e_(r, v, k): return r.eng.field(v, k)


def dispatch(c, P):
    """the factory call: table entry of the two kinds, fixtures exchanged when the entry is not primary."""
    m = sym('m')
    for i, a in enumerate(KINDS):
        for j, b in enumerate(KINDS):
            if (a, b) not in ROUTINE and (b, a) not in ROUTINE:
                continue

            def gt(e, args, n, a=a, b=b):
                return kind_of(a if args[0] == sym('fa').ptr('m_shape', *SOME) else b)
            r = summarise(c, P, 'b2_contact::B2contact::<D>::create', names=['m', 'fa', 'ia', 'fb', 'ib'], hooks={'b2_shape::B2shapeDynTrait::get_type': record('kind', gt)})
            ent = m.at('m_registers', 's_registers', ('i', E.const(i)), ('i', E.const(j)))
            lab = 'creating %s with %s' % (a, b)
            fa, fb, ia, ib = sym('fa').ptr(), sym('fb').ptr(), sym('ia').num().n, sym('ib').num().n
            xs = [x for x in r.effects if x.kind == 'call' and x.name == '<indirect>']
            tot = {TRUE: FALSE, FALSE: FALSE}
            bad = []
            for x in xs:
                args = [y for y in x.args if y in (fa, fb, ia, ib)]
                fnp = x.args[0]
                if fnp != ent.ptr('create_fcn', *SOME) and fnp != ent.at('create_fcn', *SOME).n:
                    bad.append('calls ' + E.show(fnp, 4))
                if args == [fa, ia, fb, ib]:
                    tot[TRUE] = E.OR(tot[TRUE], x.guard)
                elif args == [fb, ib, fa, ia]:
                    tot[FALSE] = E.OR(tot[FALSE], x.guard)
                else:
                    bad.append('with %s' % [E.show(y, 2) for y in args])
            pri, np = ent.bool('primary'), ~panics(r)
            c.ob('factory', lab + ': calls the table entry of the two kinds', not bad and bool(xs), '; '.join(bad))
            c.ob('factory', lab + ': given order when the entry is primary', E.AND(tot[TRUE], np.n) == E.AND(pri.n, np.n), E.show(tot[TRUE], 4))
            c.ob('factory', lab + ': exchanged otherwise', E.AND(tot[FALSE], np.n) == E.AND((~pri).n, np.n), E.show(tot[FALSE], 4))
            rets = {x.ret for x in xs}
            c.ob('factory', lab + ': the created contact is returned', all(t in rets or payload(t)[0] == 'ptr' and payload(t)[1][1] in rets for _, t in E.leaves(r.ret, np.n)), E.show(r.ret, 4))
