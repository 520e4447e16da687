"""Life cycle of fixtures: creation, broad-phase proxies, destruction, accessors."""
from ..spec import *
from .worldlib import *
from .bodylib import ENABLED
from .c03 import k_, AWAKE
from .c35 import only_here, none_of

T = S(TRUE)
SH = 'b2_shape::B2shapeDynTrait::'
BP = 'b2_broad_phase::B2broadPhase::<UserDataType>::'
CORNERS = [(b, a) for b in ('lower_bound', 'upper_bound') for a in 'xy']
XF = [('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')]


def corner(key, shape, xf, child):
    return S(E.numapp('box.%s.%s' % key, shape, *[nd(x) for x in xf], nd(child)))


def compute_aabb(e, fr, st, args, tys, dt, line, fop):
    """the box of one child of a shape at a placement; the formulas are decided with the shapes."""
    from ..engine import UNIT, Effect
    shape, out, xf, child = args
    xs = [E.like(v, E.ZERO) if not E.isnum(v) else v for v in (e.field(e.field(xf, a), b) for a, b in XF)]
    for key in CORNERS:
        p = out
        for f in key:
            p = e.extend(p, f)
        e.store(st, p, corner(key, shape, [S(x) for x in xs], S(child)).n, fr, line)
    e.effects.append(Effect('call', st.pc, fr.path, line, name='box', args=list(args), ret=UNIT, mem=dict(st.mem), argtys=tys, info={'rec': True}))
    return UNIT


def children(shape): return S(E.numapp('children', shape))


SHAPES = {SH + 'compute_aabb': compute_aabb, SH + 'get_child_count': record('children', lambda e, a, n: children(a[0]).n), SH + 'clone_rc': record('copy shape', lambda e, a, n: sym('copy').ptr()),
          BP + 'create_proxy': record('bp create', lambda e, a, n: sym('newid').num().n), BP + 'destroy_proxy': record('bp destroy'), BP + 'move_proxy': record('bp move')}


def check(c):
    P = c.P
    create(c, P)
    destroy(c, P)
    proxies(c, P)
    accessors(c, P)
    c.rule('default', 'an untouched definition has the documented values')
    r = summarise(c, P, '<b2_fixture::B2fixtureDef<D> as std::default::Default>::default', names=[])
    for f, v in (('friction', f32(0.2)), ('restitution', k_(0)), ('restitution_threshold', k_(1)), ('density', k_(0)), ('is_sensor', S(FALSE)), ('shape', NONE), ('user_data', NONE)):
        c.ob('default', f, same(r.value(r.ret, (f,)), v), E.show(r.value(r.ret, (f,)), 3))
    for f, v in (('category_bits', k_(1)), ('mask_bits', k_(65535)), ('group_index', k_(0))):
        c.ob('default', f, same(r.value(r.ret, ('filter', f)), v), E.show(r.value(r.ret, ('filter', f)), 3))


FROM = (('m_friction', 'friction'), ('m_restitution', 'restitution'), ('m_restitution_threshold', 'restitution_threshold'), ('m_density', 'density'))


def create(c, P):
    c.rule('create', 'a new fixture carries its definition and a copy of the shape, joins its body, and gets proxies exactly when the body is enabled')
    for how in ('definition', 'shape'):
        if how == 'definition':
            r = summarise(c, P, BDM + 'create_fixture', names=['b', 'def'], hooks=dict(PARTS, **SHAPES))
            d = sym('def')
            vals = {q: d.num(s).n for q, s in FROM}
            vals.update({('m_filter', g): d.num('filter', g).n for g in ('category_bits', 'mask_bits', 'group_index')})
            sensor, udata, shape = d.bool('is_sensor').n, d.at('user_data').n, d.ptr('shape', *SOME)
            noshape = isnone(d.at('shape'))
        else:
            r = summarise(c, P, BDM + 'create_fixture_by_shape', names=['b', 'shape', 'density'], hooks=dict(PARTS, **SHAPES))
            vals = {'m_friction': f32(0.2).n, 'm_restitution': E.ZERO, 'm_restitution_threshold': E.ONE, 'm_density': sym('density').num().n,
                    ('m_filter', 'category_bits'): E.ONE, ('m_filter', 'mask_bits'): E.const(65535), ('m_filter', 'group_index'): E.ZERO}
            sensor, udata, shape = FALSE, NONE.n, sym('shape').ptr()
            noshape = S(FALSE)
        lab = 'creating from a ' + how
        b = sym('b')
        w = b.at('m_world')
        np = ~panics(r)
        lock = w.bool('m_locked')
        c.ob('create', lab + ' fails in a locked world', E.AND(lock.n, (~panics_top(r)).n) == FALSE, 'goes on')
        more = fails_beyond(panics_top(r), lock | noshape)
        c.ob('create', lab + ' fails only when locked or without a shape', more == FALSE, 'fails when ' + E.show(more, 4))
        fx = E.constrain(r.ret, np.n)
        expect_calls(c, 'create', lab, r.effects, 'copy shape', [((shape,), T)], under=np)
        for q, want in vals.items():
            keys = q if isinstance(q, tuple) else (q,)
            g = E.constrain(r.value(fx, keys), np.n)
            c.ob('create', '%s: %s' % (lab, '.'.join(keys)), same(g, E.constrain(want, np.n)), 'is ' + E.show(g, 4))
        for keys, want in ((('m_is_sensor',), sensor), (('m_user_data',), udata), (('m_body',), some(b.ptr()).n), (('m_shape',), some(sym('copy').ptr()).n), (('m_next',), NONE.n)):
            g = E.constrain(r.value(fx, keys), np.n)
            c.ob('create', '%s: %s' % (lab, '.'.join(keys)), same(g, E.constrain(want, np.n)), 'is ' + E.show(g, 4))
        g = E.constrain(r.value(fx, ('m_proxy_count',)), np.n)
        c.ob('create', lab + ': no proxies are counted before they are created', same(g, E.ZERO), 'is ' + E.show(g, 4))
        for x in calls(r.effects, 'create proxies'):
            g = at_call(r, x, fx, 'm_proxies', 'len')
            c.ob('create', lab + ': room for one proxy per child', same(g, E.constrain(children(sym('copy').ptr()).n, x.guard)), 'is ' + E.show(g, 4))
            for ks in XF:
                g = at_call(r, x, x.args[2], *ks)
                c.ob('create', lab + ': proxies are created where the body is (%s)' % '.'.join(ks), same(g, E.constrain(b.num('m_xf', *ks).n, x.guard)), 'at ' + E.show(g, 3))
        en = b.flag(ENABLED, 'm_flags')
        expect_calls(c, 'create', lab, r.effects, 'create proxies', [((fx, w.ptr('m_contact_manager', 'm_broad_phase'), None), en)], under=np)
        expect_calls(c, 'create', lab, r.effects, 'add fixture', [((place(b, 'm_fixture_list'), fx), T)], under=np)
        den = S(vals['m_density'])
        expect_calls(c, 'create', lab, r.effects, 'mass', [((b.ptr(),), den > k_(0))], under=np)
        before(c, 'create', lab, r.effects, 'add fixture', 'mass')
        none_of(c, 'create', lab, r, 'insert', 'remove', 'drop fixture', 'end contact', 'remove proxies', 'wake')
        expect_changes(c, 'create', lab, r, {b.at('m_fixture_count'): b.num('m_fixture_count') + k_(1), w.at('m_new_contacts'): T}, under=np, got={k: v for k, v in changes(r).items() if 'default-element' not in k})


def destroy(c, P):
    c.rule('destroy', 'destroying a fixture ends exactly its contacts, removes its proxies, leaves the body and updates mass')
    r = summarise(c, P, BDM + 'destroy_fixture', names=['b', 'f'], hooks=dict(PARTS, **SHAPES))
    b, f = sym('b'), sym('f')
    w = b.at('m_world')
    np = ~panics(r)
    mine = peq(f.ptr('m_body', *SOME), b.ptr())
    for lab, bad in (('a locked world', w.bool('m_locked')), ('a fixture of another body', ~mine), ('no fixtures', ~(b.num('m_fixture_count') > k_(0)))):
        c.ob('destroy', lab + ' is rejected', E.AND(bad.n, (~panics_top(r)).n) == FALSE, 'accepted')
    bad = w.bool('m_locked') | ~mine | ~(b.num('m_fixture_count') > k_(0)) | isnone(f.at('m_body'))
    rest = fails_beyond(panics_top(r), bad)
    c.ob('destroy', 'nothing else is rejected', rest == FALSE, 'fails when ' + E.show(rest, 4))
    L = pick(c, 'destroy', 'contacts', loops(r), b.at('m_contact_list', 'head'))
    if L is not None:
        sc = walk(c, 'destroy', 'ending the contacts', L, b.at('m_contact_list', 'head'), ('next',), T, np)
        if sc:
            e, live = sc
            k = Obj(e.n).at('contact', 'base')
            hit = peq(f.ptr(), k.ptr('m_fixture_a')) | peq(f.ptr(), k.ptr('m_fixture_b'))
            expect_calls(c, 'destroy', 'contacts', L.sub, 'end contact', [((w.ptr('m_contact_manager'), Obj(e.n).ptr('contact')), live & hit)], under=np & ~panics_in(L))
            only_here(c, 'destroy', 'contacts', r, ['end contact'], L)
            untouched(c, 'destroy', 'contacts', L.sub)
    en = b.flag(ENABLED, 'm_flags')
    got = calls(r.effects, 'remove proxies')
    g = FALSE
    for x in got:
        g = E.OR(g, x.guard)
    # without proxies removal does nothing, so a disabled body may call it or not
    c.ob('destroy', 'proxies of an enabled body are removed', E.AND(E.AND(en.n, np.n), E.NOT(g)) == FALSE and all(x.args[:2] == [f.ptr(), w.ptr('m_contact_manager', 'm_broad_phase')] for x in got), str([E.show(a, 3) for x in got for a in x.args]))
    expect_calls(c, 'destroy', 'fixture', r.effects, 'drop fixture', [((place(b, 'm_fixture_list'), f.ptr()), T)], under=np)
    expect_calls(c, 'destroy', 'fixture', r.effects, 'mass', [((b.ptr(),), T)], under=np)
    before(c, 'destroy', 'fixture', r.effects, 'drop fixture', 'mass')
    none_of(c, 'destroy', 'fixture', r, 'insert', 'remove', 'clear', 'add fixture', 'drop fixtures', 'create proxies', 'end joint')
    ch = changes(r)
    for q in ('m_body', 'm_next'):
        g = ch.pop('f.' + q, f.at(q).n)
        if q == 'm_body':
            c.ob('destroy', 'the fixture forgets its body', E.constrain(g, np.n) == NONE.n, E.show(g, 3))
    expect_changes(c, 'destroy', 'destroying a fixture', r, {b.at('m_fixture_count'): b.num('m_fixture_count') - k_(1)}, under=np, ignore=('f.m_body', 'f.m_next'))


def proxies(c, P):
    c.rule('proxies', 'one proxy per child, with the box of that child; removal takes them all; synchronisation covers the swept box and reports its displacement')
    f, bp = sym('f'), sym('bp')
    xf = [sym('xf').num(*k) for k in XF]
    r = summarise(c, P, FXM + 'create_proxies', names=['f', 'bp', 'xf'], hooks=SHAPES)
    np = ~panics_top(r)
    shape = f.ptr('m_shape', *SOME)
    n = children(shape)
    c.ob('proxies', 'creating proxies twice is rejected', E.AND((~f.num('m_proxy_count').eq(k_(0))).n, np.n) == FALSE, 'accepted')
    ls = loops(r)
    if c.ob('proxies', 'creation is one pass', len(ls) == 1, '%d' % len(ls)):
        L = ls[0]
        sc = counted(c, 'proxies', 'creation', L, n)
        if sc:
            i, live = sc
            px = f.at('m_proxies', ('i', i.n))
            u = np & ~panics_in(L) & live & S(L.guard)
            box = {key: corner(key, shape, xf, i) for key in CORNERS}
            cs = calls(L.sub, 'bp create')
            expect_calls(c, 'proxies', 'creation', L.sub, 'bp create', [((bp.ptr(), None, None), live)], under=np & ~panics_in(L) & S(L.guard))
            for x in cs:
                for key, want in box.items():
                    g = E.constrain(r.eng.field(r.eng.field(x.args[1], key[0]), key[1]), u.n)
                    c.ob('proxies', 'creation registers the box of the child (%s.%s)' % key, same(g, E.constrain(want.n, u.n)), E.show(g, 4)[:200])
                g = x.args[2]
                c.ob('proxies', 'creation registers the proxy itself', proxy_ref(r, x, g, px), E.show(g, 4))
            final(c, 'creation', L, px, dict({('aabb',) + k: v.n for k, v in box.items()} | {('proxy_id',): sym('newid').num().n, ('fixture',): some(f.ptr()).n, ('child_index',): i.n}), u)
    expect_changes(c, 'proxies', 'creation', r, {f.at('m_proxy_count'): n}, under=np)

    r = summarise(c, P, FXM + 'destroy_proxies', names=['f', 'bp'], hooks=SHAPES)
    ls = loops(r)
    np = ~panics_top(r)
    if c.ob('proxies', 'removal is one pass', len(ls) == 1, '%d' % len(ls)):
        L = ls[0]
        sc = counted(c, 'proxies', 'removal', L, f.num('m_proxy_count'))
        if sc:
            i, live = sc
            px = f.at('m_proxies', ('i', i.n))
            expect_calls(c, 'proxies', 'removal', L.sub, 'bp destroy', [((bp.ptr(), px.num('proxy_id')), live)], under=np & ~panics_in(L))
            final(c, 'removal', L, px, {('proxy_id',): E.const(-1)}, np & ~panics_in(L) & live)
    expect_changes(c, 'proxies', 'removal', r, {f.at('m_proxy_count'): k_(0)}, under=np)

    r = summarise(c, P, FXM + 'synchronize', names=['f', 'bp', 'x1', 'x2'], hooks=SHAPES)
    x1, x2 = ([sym(n).num(*k) for k in XF] for n in ('x1', 'x2'))
    ls = loops(r)
    np = ~panics_top(r)
    if c.ob('proxies', 'synchronisation is one pass', len(ls) == 1, '%d' % len(ls)):
        L = ls[0]
        sc = counted(c, 'proxies', 'synchronisation', L, f.num('m_proxy_count'))
        if sc:
            i, live = sc
            px = f.at('m_proxies', ('i', i.n))
            # without proxies there is nothing to do
            some_ = ~f.num('m_proxy_count').eq(k_(0))
            u = np & ~panics_in(L) & live & some_
            c.ob('proxies', 'synchronisation runs whenever there are proxies', E.AND(E.AND(np.n, some_.n), E.NOT(L.guard)) == FALSE, 'skipped when ' + E.show(E.AND(some_.n, E.NOT(L.guard)), 3))
            b1 = {k: corner(k, shape, x1, px.num('child_index')) for k in CORNERS}
            b2 = {k: corner(k, shape, x2, px.num('child_index')) for k in CORNERS}
            box = {k: (smin if k[0] == 'lower_bound' else smax)(b1[k], b2[k]) for k in CORNERS}
            dis = {a: (b2['lower_bound', a] + b2['upper_bound', a] - b1['lower_bound', a] - b1['upper_bound', a]) / k_(2) for a in 'xy'}
            expect_calls(c, 'proxies', 'synchronisation', L.sub, 'bp move', [((bp.ptr(), px.num('proxy_id'), None, None), live & some_)], under=np & ~panics_in(L) & some_)
            for x in calls(L.sub, 'bp move'):
                for key, want in box.items():
                    g = E.constrain(r.eng.field(r.eng.field(x.args[2], key[0]), key[1]), u.n)
                    c.ob('proxies', 'synchronisation covers both placements (%s.%s)' % key, same(g, E.constrain(want.n, u.n)), E.show(g, 4)[:200])
                for a in 'xy':
                    g = E.constrain(r.eng.field(x.args[3], a), u.n)
                    c.ob('proxies', 'synchronisation reports the displacement (%s)' % a, same(g, E.constrain(dis[a].n, u.n)), E.show(g, 4)[:200])
            final(c, 'synchronisation', L, px, {('aabb',) + k: v.n for k, v in box.items()}, u)
    expect_changes(c, 'proxies', 'synchronisation', r, {})


def proxy_ref(r, x, g, px):
    """the argument is a reference to the proxy handle."""
    p = payload(g) if is_term(g) else None
    want = E.show(px.ptr()).lstrip('&')
    return E.show(g).lstrip('&') == want or E.show(r.value(g, (), mem=x.mem)).lstrip('&') == want


def final(c, lab, L, px, want, u):
    iteration_writes(c, 'proxies', lab, L, px, want, u)


def accessors(c, P):
    c.rule('accessor', 'each accessor returns or changes exactly its own value, and shape queries pass the placement of the body')
    s = sym('self')
    for f, want in (('get_friction', s.num('m_friction')), ('get_restitution', s.num('m_restitution')), ('get_restitution_threshold', s.num('m_restitution_threshold')), ('get_density', s.num('m_density')),
                    ('is_sensor', s.bool('m_is_sensor')), ('get_user_data', S(s.at('m_user_data').n)), ('get_body', S(s.ptr('m_body', *SOME))), ('get_shape', S(s.ptr('m_shape', *SOME)))):
        r = summarise(c, P, FXM + f, names=['self'])
        g = E.constrain(r.ret, (~panics(r)).n)
        c.ob('accessor', f, same(g, want), 'returns ' + E.show(g, 4))
        expect_changes(c, 'accessor', f, r, {})
    r = summarise(c, P, FXM + 'get_filter_data', names=['self'])
    for g in ('category_bits', 'mask_bits', 'group_index'):
        v = r.value(r.ret, (g,))
        c.ob('accessor', 'get_filter_data ' + g, same(v, s.num('m_filter', g)), E.show(v, 3))
    for f in ('friction', 'restitution', 'restitution_threshold', 'density'):
        r = summarise(c, P, FXM + 'set_' + f, names=['self', 'v'])
        np = ~panics(r)
        if f == 'density':
            c.ob('accessor', 'a negative density is rejected', E.AND((sym('v').num() < k_(0)).n, np.n) == FALSE, 'accepted')
        else:
            no_panic(c, 'accessor', 'set_' + f, r)
        expect_changes(c, 'accessor', 'set_' + f, r, {s.at('m_' + f): sym('v').num()}, under=np)
    r = summarise(c, P, FXM + 'set_user_data', names=['self', 'data'])
    v = changes(r)
    c.ob('accessor', 'set_user_data', set(v) == {'self.m_user_data'} and sym('data').n in (v['self.m_user_data'], r.value(v['self.m_user_data'], SOME)), str({a: E.show(b, 3) for a, b in v.items()})[:200])
    r = summarise(c, P, FXM + 'set_sensor', names=['self', 'v'], hooks=AWAKE)
    v = sym('v').bool()
    diff = (v & ~s.bool('m_is_sensor')) | (~v & s.bool('m_is_sensor'))
    np = ~panics(r)
    expect_changes(c, 'accessor', 'set_sensor', r, {s.at('m_is_sensor'): v}, under=np)
    expect_calls(c, 'accessor', 'set_sensor', r.effects, 'wake', [((s.ptr('m_body', *SOME), T), diff)], under=np)
    c.ob('accessor', 'set_sensor without a change never fails', E.AND(panics(r).n, (~diff).n) == FALSE, 'fails')
    # delegates
    xf = s.at('m_body', *SOME, 'm_xf')
    for f, names, args in (('test_point', ['self', 'p'], lambda r: [None, xf, sym('p')]), ('ray_cast', ['self', 'output', 'input', 'child'], lambda r: [None, sym('output'), sym('input'), xf, sym('child')]),
                           ('get_mass_data', ['self', 'data'], lambda r: [None, sym('data'), s.num('m_density')])):
        tgt = {'get_mass_data': 'compute_mass'}.get(f, f)
        h = {SH + tgt: record('shape ' + tgt, lambda e, a, n: sym('answer').n)}
        r = summarise(c, P, FXM + f, names=names, hooks=h)
        np = ~panics(r)
        cs = calls(r.effects, 'shape ' + tgt)
        if not c.ob('accessor', f + ' asks the shape once', len(cs) == 1 and E.AND(cs[0].guard, np.n) == np.n, '%d' % len(cs)):
            continue
        x = cs[0]
        c.ob('accessor', f + ' asks the own shape', x.args[0] == s.ptr('m_shape', *SOME), E.show(x.args[0], 3))
        for a, w in zip(x.args[1:], args(r)[1:]):
            if w is xf:
                ok = all(same(at_call(r, x, a, *k) if payload(a)[0] == 'ptr' else E.constrain(fieldpath(r, a, k), x.guard), E.constrain(xf.num(*k).n, x.guard)) for k in XF)
            elif isinstance(w, S):
                ok = same(a, w)
            else:
                ok = a in (w.n, w.ptr()) or same(a, E.like(w.n, a))
            c.ob('accessor', '%s passes %s' % (f, 'the placement of the body' if w is xf else E.show(node(w), 3)), ok, 'passes ' + E.show(a, 3))
        if f != 'get_mass_data':
            c.ob('accessor', f + ' returns the answer', same(E.constrain(r.ret, np.n), sym('answer').bool()) or r.ret == sym('answer').n, E.show(r.ret, 3))
        expect_changes(c, 'accessor', f, r, {})
    r = summarise(c, P, FXM + 'get_aabb', names=['self', 'i'])
    i = sym('i').num()
    ok = ~(i < k_(0)) & (i < s.num('m_proxies', 'len'))
    c.ob('accessor', 'get_aabb accepts every child', E.AND(panics(r).n, ok.n) == FALSE, 'fails when ' + E.show(E.AND(panics(r).n, ok.n), 4))
    for k in CORNERS:
        v = E.constrain(r.value(r.ret, k), (~panics(r)).n)
        c.ob('accessor', 'get_aabb %s.%s' % k, same(v, s.at('m_proxies', ('i', i.n)).num('aabb', *k)), E.show(v, 4))


def fieldpath(r, v, ks):
    for k in ks:
        v = r.eng.field(v, k)
    return v
