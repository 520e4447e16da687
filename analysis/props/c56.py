"""Debug drawing: what is drawn for each body, joint, contact and box, and nothing else."""
from ..spec import *
from .bodylib import AWAKE, ENABLED
from .c28 import unit
from .c38 import DERIVED
from .jointlib import SLOP
from .worldlib import *

J = '<joints::b2_%s_joint::B2%sJoint<D> as b2_joint::B2jointTraitDyn<D>>::draw'
D = 'b2_draw::B2drawTrait::'
GREY, GREEN, RED, BLUE, DARK = ((0.7,) * 3, (0.3, 0.9, 0.3), (0.9, 0.3, 0.3), (0.3, 0.3, 0.9), (0.4,) * 3)
SHAPE, JOINT, BOX, PAIR, CENTRE = range(5)


def colour(x): return {'r': f32(x[0]), 'g': f32(x[1]), 'b': f32(x[2]), 'a': k(1)}


def drawings(effects, skip=()):
    return [x for x in effects if x.kind == 'call' and x.name.startswith(D) and not x.name.split('::')[-1].startswith('get_base')]


def matches(r, x, args):
    for a, w in zip(x.args[1:], args):
        if isinstance(w, V):
            w = {'x': w.x, 'y': w.y}
        if isinstance(w, dict):
            for q, y in w.items():
                keys = tuple(q.split('.'))
                if not same(E.constrain(r.value(a, keys, mem=x.mem), x.guard), S(E.constrain(nd(y), x.guard))):
                    return False
        elif w is not None and not same(E.constrain(a, x.guard), S(E.constrain(node(w), x.guard))):
            return False
    return True


def expect_drawn(c, rule, name, r, effects, want, under=S(TRUE)):
    """exactly these shapes are drawn, in any order: want = [(kind, args, condition)]."""
    left = drawings(effects)
    u = under.n
    for kind, args, cond in want:
        cond = cond & under
        tot = FALSE
        for x in list(left):
            g = E.AND(x.guard, u)
            if x.name == D + kind and E.AND(g, nd(cond)) != FALSE and E.AND(g, E.NOT(nd(cond))) == FALSE and E.AND(g, tot) == FALSE and matches(r, x, args):
                tot = E.OR(tot, g)
                left.remove(x)
        shown = ', '.join(E.show(nd(a.x) if isinstance(a, V) else nd(a['r'] if 'r' in a else list(a.values())[0]) if isinstance(a, dict) else node(a), 2)[:50] for a in args if a is not None)
        c.ob(rule, '%s: %s %s' % (name, kind, shown), tot == nd(cond), 'drawn when %s instead of %s' % (E.show(tot, 4)[:200], E.show(nd(cond), 4)[:200]))
    c.ob(rule, name + ': nothing else is drawn', not left, '; '.join('%s at line %s' % (x.name.split('::')[-1], x.line) for x in left))


class Ends:
    def __init__(self, j):
        a, b = j.at('base', 'm_body_a'), j.at('base', 'm_body_b')
        self.xa, self.xb = a.xf('m_xf'), b.xf('m_xf')
        self.pa, self.pb = mulx(self.xa, j.vec('m_local_anchor_a')), mulx(self.xb, j.vec('m_local_anchor_b'))
        self.angle = b.num('m_sweep', 'a') - a.num('m_sweep', 'a')


def joints(c, P):
    rule = 'joint'
    c.rule(rule, 'each joint is drawn through its anchors, with its limits and rest length where it has them')
    j = sym('j')
    e = Ends(j)
    T = S(TRUE)
    lim = j.bool('m_enable_limit')

    def go(name, typ, want):
        from ..check import AnchorMissing
        try:
            r = summarise(c, P, J % (name, typ), names=['j', 'draw'])
        except AnchorMissing:
            c.ob(rule, name + ' joints draw themselves', False, 'no drawing of their own')
            return
        expect_drawn(c, rule, name, r, r.effects, want)
        expect_changes(c, rule, name, r, {})
        c.ob(rule, name + ' fails', panics(r).n == FALSE, E.show(panics(r).n, 4))
    u = unit(e.pb - e.pa)
    lo, hi = j.num('m_min_length'), j.num('m_max_length')
    differ = ~lo.eq(hi)
    go('distance', 'distance', [
        ('draw_segment', [e.pa, e.pb, colour(DARK)], T), ('draw_point', [e.pa + j.num('m_length') * u, k(8), colour(GREY)], T),
        ('draw_point', [e.pa + lo * u, k(4), colour(GREEN)], differ & (lo > SLOP)),
        ('draw_point', [e.pa + hi * u, k(4), colour(RED)], differ & (hi < f32(3.4028235e38)))])
    for name in ('prismatic', 'wheel'):
        ax, pp = mulq(e.xa.q, j.vec('m_local_xaxis_a')), mulq(e.xa.q, j.vec('m_local_yaxis_a'))
        lower, upper = e.pa + j.num('m_lower_translation') * ax, e.pa + j.num('m_upper_translation') * ax
        h = 0.5 * pp
        go(name, name, [
            ('draw_segment', [e.pa, e.pb, colour(DARK)], T), ('draw_segment', [lower, upper, colour(GREY)], lim),
            ('draw_segment', [lower - h, lower + h, colour(GREEN)], lim), ('draw_segment', [upper - h, upper + h, colour(RED)], lim),
            ('draw_segment', [e.pa - ax, e.pa + ax, colour(GREY)], ~lim), ('draw_point', [e.pa, k(5), colour(GREY)], T), ('draw_point', [e.pb, k(5), colour(BLUE)], T)])

    def ray(a): return e.pb + 0.5 * V(fn('cos', a), fn('sin', a))
    line = colour((0.5, 0.8, 0.8))
    go('revolute', 'revolute', [
        ('draw_point', [e.pa, k(5), colour(BLUE)], T), ('draw_point', [e.pb, k(5), colour(DARK)], T),
        ('draw_segment', [e.pb, ray(e.angle - j.num('m_reference_angle')), colour(GREY)], T), ('draw_circle', [e.pb, k(0.5), colour(GREY)], T),
        ('draw_segment', [e.pb, ray(j.num('m_lower_angle')), colour(GREEN)], lim), ('draw_segment', [e.pb, ray(j.num('m_upper_angle')), colour(RED)], lim),
        ('draw_segment', [e.xa.p, e.pa, line], T), ('draw_segment', [e.pa, e.pb, line], T), ('draw_segment', [e.xb.p, e.pb, line], T)])
    # the other kinds share one routine
    H = {'b2_joint::B2jointTraitDyn::get_anchor_a': pure('anchor_a', ret='vec'), 'b2_joint::B2jointTraitDyn::get_anchor_b': pure('anchor_b', ret='vec'),
         'b2_joint::ToDerivedJoint::as_derived': pure('kind', ret='raw')}
    r = summarise(c, P, 'b2_joint::B2jointTraitDyn::draw', names=['j', 'draw'], hooks=H)
    p1, p2 = (pure_vec(t, j.ptr()) for t in ('anchor_a', 'anchor_b'))
    kind = Obj(E.app('kind', j.ptr()))
    is_ = lambda n: S(E.is_variant(kind.n, n, 10))
    dist, pul, mouse = is_(0), is_(5), is_(3)
    rest = ~(dist | pul | mouse)
    g = kind.at(('d', 'EPulleyJoint'), '0')
    ga, gb = g.vec('m_ground_anchor_a'), g.vec('m_ground_anchor_b')
    xa, xb = anchors(r, j)
    ok = colour((0, 1, 0))
    expect_drawn(c, rule, 'other joints', r, r.effects, [
        ('draw_segment', [p1, p2, line], dist | rest),
        ('draw_segment', [ga, p1, line], pul), ('draw_segment', [gb, p2, line], pul), ('draw_segment', [ga, gb, line], pul),
        ('draw_point', [p1, k(4), ok], mouse), ('draw_point', [p2, k(4), ok], mouse), ('draw_segment', [p1, p2, colour((0.8, 0.8, 0.8))], mouse),
        ('draw_segment', [xa, p1, line], rest), ('draw_segment', [xb, p2, line], rest)])


def anchors(r, j):
    return j.at('base', 'm_body_a').xf('m_xf').p, j.at('base', 'm_body_b').xf('m_xf').p


def shapes(c, P):
    rule = 'shape'
    c.rule(rule, 'each kind of shape is drawn in the given frame and colour: all of its outline, and nothing else')
    H = {DERIVED: pure('derived', ret='raw')}
    r = summarise(c, P, 'b2_world::B2world::<D>::draw_shape', names=['w', 'f', 'xf', 'col'], hooks=H)
    pick_ = [x for x, _ in r.flat(kinds=('call',)) if x.name == 'derived']
    if not c.ob(rule, 'the shape is asked for its kind', len(pick_) >= 1, len(pick_)):
        return
    sh = Obj(E.app('derived', pick_[0].args[0]))
    c.ob(rule, 'the shape drawn is the fixture\'s', all('f.m_shape' in E.show(x.args[0], 9) for x in pick_), [E.show(x.args[0], 5) for x in pick_])
    xf = sym('xf').xf()
    col = {q: sym('col').num(q) for q in 'rgba'}
    live = ~panics_top(r)
    names = ('AsCircle', 'AsEdge', 'AsPolygon', 'AsChain')
    case = {n: S(E.is_variant(sh.n, i, 4)) for i, n in enumerate(names)}
    # an unset canvas or shape cannot be drawn
    got = {n: sh.at(('d', n), '0') for n in names}
    ci, ed, po, cn = (got[n] for n in names)
    v1, v2 = mulx(xf, ed.vec('m_vertex1')), mulx(xf, ed.vec('m_vertex2'))
    unset = isnone(sym('w').at('m_debug_draw')) | isnone(sym('f').at('m_shape'))
    two = case['AsEdge'] & ~ed.bool('m_one_sided')
    n = po.num('m_count')
    fine = ~unset & (n <= 8) & (cn.num('m_vertices', 'len') > 0)
    poly = case['AsPolygon'] & fine
    ls = loops(r)
    verts = None
    tried = []
    for L in ls:
        for (root, path), (i, s, nx) in L.mus.items():
            if nx is not None and is_term(s) and not E.isnum(s) and E.AND(L.guard, case['AsPolygon'].n) != FALSE:
                tried.append((L, s, nx))
    fill = [x for x, st in r.flat(kinds=('call',)) if x.name == D + 'draw_solid_polygon']
    if c.ob(rule, 'polygon: drawn once', len(fill) == 1 and E.AND(fill[0].guard, fine.n) == poly.n, [E.show(x.guard, 4)[:200] for x in fill]):
        x = fill[0]
        sl = r.eng._slice(x.args[1]) if is_term(x.args[1]) else None
        c.ob(rule, 'polygon: its vertices and no more', sl is not None and same(sl[1], k(0)) and same(E.constrain(sl[2], x.guard), S(E.constrain(n.n, x.guard))), 'draws %s' % E.show(x.args[1], 4)[:200])
        c.ob(rule, 'polygon: colour', matches(r, x, [None, col]), 'colour')
        ok = False
        for L, s, nx in tried:
            e = Each(quiet, rule, 'polygon vertices', L, n, r)
            if e.ok:
                b = L.e.info['back_pc']
                w = mulx(xf, po.vec('m_vertices', ('i', e.i.n)))
                g = E.constrain(nx, b)
                ok = ok or (is_term(g) and payload(g)[0] == 'upd' and payload(g)[1] == s and len(payload(g)[2]) == 1 and payload(g)[2][0][0] == ('i', e.i.n)
                            and all(same(r.value(payload(g)[2][0][1], (q,)), getattr(w, q)) for q in 'xy'))
        c.ob(rule, 'polygon: vertices in the given frame', ok, 'the drawn vertices are not the shape\'s in its frame')
    chain = [L for L in ls if any(x.name == D + 'draw_segment' for x in drawings(L.sub))]
    if c.ob(rule, 'chain: one pass', len(chain) == 1, len(chain)):
        L = chain[0]
        m = cn.num('m_vertices', 'len')
        seg = drawings(L.sub)
        b = L.e.info['back_pc']
        at = lambda i: mulx(xf, cn.vec('m_vertices', ('i', i.n)))
        ok = False
        c.ob(rule, 'chain: drawn for chains', E.AND(L.guard, fine.n) == E.AND(case['AsChain'].n, fine.n), E.show(L.guard, 4)[:300])
        for key, (i, s, nx) in L.mus.items():
            if nx is None or not E.isnum(s) or not same(E.constrain(nx, b), S(s) + 1):
                continue
            for first in (0, 1):
                # the counter names the far end (from 1) or the near end (from 0) of each link
                if not same(i, k(first)):
                    continue
                far = S(s) + (1 - first)
                if not all(E.AND(x, (far < m).n) == FALSE for x in L.exits) or E.AND(b, E.NOT((far < m).n)) != FALSE or len(seg) != 1 or seg[0].guard != b:
                    continue
                near = far - 1
                carried = {}
                a0 = at(k(0))
                for q in 'xy':
                    for k2, (i2, s2, nx2) in L.mus.items():
                        if nx2 is not None and E.isnum(s2) and same(E.constrain(i2, L.guard), S(E.constrain(getattr(a0, q).n, L.guard))) and same(E.constrain(nx2, b), S(E.constrain(getattr(at(far), q).n, b))):
                            carried[q] = S(s2)
                begin = V(carried['x'], carried['y']) if len(carried) == 2 else at(near)
                ok = ok or matches(r, seg[0], [begin, at(far), col]) or matches(r, seg[0], [at(near), at(far), col])
        c.ob(rule, 'chain: every link', ok, 'the links are not all drawn between neighbouring vertices')
    top = [x for x in r.effects if x not in fill]
    expect_drawn(c, rule, 'outline', r, top, [
        ('draw_solid_circle', [mulx(xf, ci.vec('m_p')), ci.num('base', 'm_radius'), mulq(xf.q, V(1, 0)), col], case['AsCircle']),
        ('draw_segment', [v1, v2, col], case['AsEdge']), ('draw_point', [v1, k(4), col], two), ('draw_point', [v2, k(4), col], two)], under=fine)
    expect_changes(c, rule, 'drawing a shape', r, {})
    c.ob(rule, 'drawing a shape fails', E.AND(panics_top(r).n, (~(unset | (case['AsPolygon'] & (n > 8)) | (case['AsChain'] & (cn.num('m_vertices', 'len') <= 0)))).n) == FALSE, E.show(panics_top(r).n, 5)[:300])


class Quiet:
    def ob(self, *a): return bool(a[2])


quiet = Quiet()


def world(c, P):
    rule = 'world'
    c.rule(rule, 'drawing the world visits every body, joint, contact and box asked for by the flags, in the colour of its state, and changes nothing')
    W = 'private::dynamics::b2_world::'
    H = {W + 'draw_shape': record('shape'), 'b2_world::B2world::<D>::draw_shape': record('shape'), 'b2_joint::B2jointTraitDyn::draw': record('joint'),
         'b2_broad_phase::B2broadPhase::<UserDataType>::get_fat_aabb': fat}
    r = summarise(c, P, 'b2_world::B2world::<D>::debug_draw', names=['w'], hooks=H)
    w = sym('w')
    set_ = ~isnone(w.at('m_debug_draw'))
    canvas = w.at('m_debug_draw', *SOME, 'base')
    want = lambda bit: set_ & canvas.flag(bit, 'm_draw_flags')
    ls = loops(r)
    bodies = {}
    for L in ls:
        for bit in (SHAPE, JOINT, BOX, PAIR, CENTRE):
            if L.guard == want(bit).n:
                bodies.setdefault(bit, []).append(L)
    if not c.ob(rule, 'one pass per flag', sorted(bodies) == [SHAPE, JOINT, BOX, PAIR, CENTRE] and all(len(x) == 1 for x in bodies.values()) and len(ls) == 5, [E.show(L.guard, 4)[:80] for L in ls]):
        return
    LINK = ('m_next',)

    def over(bit, label, head, link=LINK):
        L = bodies[bit][0]
        return L, walk(c, rule, label, L, head, link, want(bit), S(TRUE))
    BL = w.at('m_body_list', 'head')
    STATIC, KIN, DYN = 0, 1, 2
    for bit, label in ((SHAPE, 'bodies'), (BOX, 'boxed bodies'), (CENTRE, 'centres')):
        L, got = over(bit, label, BL)
        if got is None:
            continue
        b, live = got
        back = S(L.e.info['back_pc'])
        if bit == CENTRE:
            xf, p = b.xf('m_xf'), b.vec('m_sweep', 'c')
            expect_drawn(c, rule, label, r, L.sub, [('draw_transform', [{'p.x': p.x, 'p.y': p.y, 'q.s': xf.q.s, 'q.c': xf.q.c}], want(bit) & live)])
            continue
        inner_ = [Loop(x) for x in L.sub if x.kind == 'loop']
        if not c.ob(rule, label + ': one pass over the fixtures', len(inner_) == 1, len(inner_)):
            continue
        K = inner_[0]
        on = want(bit) & live
        if bit == BOX:
            on = on & b.flag(ENABLED, 'm_flags')
        g = walk(c, rule, label + ' fixtures', K, b.at('m_fixture_list', 'head'), LINK, on, S(TRUE))
        if g is None:
            continue
        f, fl = g
        if bit == SHAPE:
            dyn, sta, kin = (b.is_(i, 3, 'm_type') for i in (DYN, STATIC, KIN))
            en, aw = b.flag(ENABLED, 'm_flags'), b.flag(AWAKE, 'm_flags')
            bad = dyn & b.num('m_mass').eq(0)
            cols = []
            rest = S(TRUE)
            for cond, x in ((bad, (1, 0, 0)), (~en, (0.5, 0.5, 0.3)), (sta, (0.5, 0.9, 0.5)), (kin, (0.5, 0.5, 0.9)), (~aw, (0.6, 0.6, 0.6)), (S(TRUE), (0.9, 0.7, 0.7))):
                cols.append((rest & cond, colour(x)))
                rest = rest & ~cond
            wantcol = {}
            for q in 'rgba':
                v = cols[-1][1][q]
                for cond, x in reversed(cols[:-1]):
                    v = ite(cond, x[q], v)
                wantcol[q] = v
            calls_ = [x for x in K.sub if x.kind == 'call' and x.name == 'shape']
            tot = FALSE
            xf = b.xf('m_xf')
            ok = True
            for x in calls_:
                ok = ok and E.AND(tot, x.guard) == FALSE
                tot = E.OR(tot, x.guard)
                at = lambda v, *ks: E.constrain(r.value(v, ks, mem=x.mem), x.guard)
                same_ = lambda v, y: same(v, S(E.constrain(nd(y), x.guard)))
                c.ob(rule, 'the fixture drawn', E.constrain(x.args[1], x.guard) in (E.constrain(place(f), x.guard), E.constrain(f.n, x.guard)), E.show(x.args[1], 4))
                c.ob(rule, 'shape frame', all(same_(at(x.args[2], 'p', q), getattr(xf.p, q)) for q in 'xy') and all(same_(at(x.args[2], 'q', q), getattr(xf.q, q)) for q in 'sc'), E.show(x.args[2], 4))
                c.ob(rule, 'shape colour', all(same_(at(x.args[3], q), wantcol[q]) for q in 'rgba'), 'colour %s when %s' % (E.show(at(x.args[3], 'r'), 3), E.show(x.guard, 6)[-200:]))
            c.ob(rule, 'every fixture is drawn once', ok and tot == (on & fl).n, E.show(tot, 5)[:300])
            expect_drawn(c, rule, label, r, L.sub + K.sub, [])
        else:
            prox = [Loop(x) for x in K.sub if x.kind == 'loop']
            if not c.ob(rule, label + ': one pass over the proxies', len(prox) == 1 and prox[0].guard == (on & fl).n, [E.show(x.guard, 4)[:100] for x in prox]):
                continue
            e = Each(c, rule, 'proxies', prox[0], f.num('m_proxies', 'len'), r)
            if not e.ok:
                continue
            pr = f.at('m_proxies', ('i', e.i.n))
            ds = drawings(prox[0].sub)
            ok = len(ds) == 1 and ds[0].name == D + 'draw_polygon' and ds[0].guard == e.back
            c.ob(rule, 'a box per proxy', ok, [(x.name, E.show(x.guard, 3)[:80]) for x in ds])
            if ok:
                x = ds[0]
                id_ = pr.num('proxy_id').n
                lo, hi = (V(*[S(E.numapp('fat.%s.%s' % (z, q), id_)) for q in 'xy']) for z in ('lower_bound', 'upper_bound'))
                box = {}
                for i, (px, py) in enumerate(((lo.x, lo.y), (hi.x, lo.y), (hi.x, hi.y), (lo.x, hi.y))):
                    box[i] = (px, py)
                v = x.args[1]
                pts = [[r.value(v, (('i', nd(k(i))), q), mem=x.mem) for q in 'xy'] for i in range(4)]
                got_ = all(same(pts[i][0], box[i][0]) and same(pts[i][1], box[i][1]) for i in range(4))
                c.ob(rule, 'the box has the corners of the enlarged box', got_, [[E.show(z, 3)[:60] for z in q] for q in pts])
                c.ob(rule, 'the box colour', matches(r, x, [None, colour((0.9, 0.3, 0.9))]), 'colour')
            expect_drawn(c, rule, label, r, L.sub + K.sub, [])
    L, got = over(JOINT, 'joints', w.at('m_joint_list', 'head'), ('base', 'm_next'))
    if got:
        b, live = got
        expect_calls(c, rule, 'joints', L.sub, 'joint', [([place(b)], want(JOINT) & live)])
        expect_drawn(c, rule, 'joints', r, L.sub, [])
    L, got = over(PAIR, 'contacts', w.at('m_contact_manager', 'm_contact_list', 'head'), ('base', 'm_next'))
    if got:
        b, live = got
        ends = []
        for s in 'ab':
            fx, i = b.at('base', 'm_fixture_' + s), b.num('base', 'm_index_' + s)
            box = fx.at('m_proxies', ('i', i.n), 'aabb')
            ends.append(0.5 * (box.vec('lower_bound') + box.vec('upper_bound')))
        fine = want(PAIR) & live & ~S(FALSE)
        ds = drawings(L.sub)
        ok = len(ds) == 1 and ds[0].name == D + 'draw_segment' and E.OR(ds[0].guard, panics_in(L).n) == E.OR(fine.n, panics_in(L).n)
        c.ob(rule, 'a line per contact', ok, [(x.name, E.show(x.guard, 4)[:100]) for x in ds])
        if ok:
            c.ob(rule, 'the line joins the boxes of the two children', matches(r, ds[0], ends + [colour((0.3, 0.9, 0.9))]), [E.show(r.value(a, ('x',)), 4)[:120] for a in ds[0].args[1:3]])
    expect_drawn(c, rule, 'outside the passes', r, r.effects, [])
    expect_changes(c, rule, 'drawing', r, {})


def fat(e, fr, st, args, tys, dt, line, fop):
    """hook: the enlarged box of a proxy, as a function of its identity."""
    return term(('agg', 'b2_collision::B2AABB', None, tuple((z, term(('agg', 'b2_math::B2vec2', None, tuple((q, E.numapp('fat.%s.%s' % (z, q), args[1])) for q in 'xy')))) for z in ('lower_bound', 'upper_bound'))))


def bits(v):
    """a set of flags written as an expression over the old flags and the argument."""
    t = E.show(v, 12).replace('.0', '').replace('flags(x)', 'x').replace('flags(self.m_draw_flags)', 'self.m_draw_flags').replace('self.m_draw_flags', 'old')
    return t


def settings(c, P):
    rule = 'settings'
    c.rule(rule, 'drawing flags are set, added and removed as asked, and colours keep the components they are given')
    A = 'b2_draw::B2draw::'
    for f, want in (('set_flags', ('x',)), ('append_flags', ('BitOr(x, old)', 'BitOr(old, x)')), ('clear_flags', ('BitAnd(old, bitnot(x))', 'BitAnd(bitnot(x), old)'))):
        r = summarise(c, P, A + f, names=['self', 'x'])
        ch = changes(r)
        c.ob(rule, f, len(ch) == 1 and all(kk.startswith('self.m_draw_flags') and bits(v) in want for kk, v in ch.items()) and panics(r).n == FALSE, {kk: bits(v) for kk, v in ch.items()})
    r = summarise(c, P, A + 'get_flags', names=['self'])
    c.ob(rule, 'get_flags', bits(r.ret) == 'old' and not changes(r), bits(r.ret))
    C = 'b2_draw::B2color::'
    for f, ps in (('new', 'rgb'), ('new_with_alpha', 'rgba')):
        r = summarise(c, P, C + f, names=list(ps))
        c.ob(rule, 'colour ' + f, all(same(r.value(r.ret, (q,)), sym(q).num() if q in ps else k(1)) for q in 'rgba'), E.show(r.ret, 3))
    for f, ps in (('set', 'rgb'), ('set_with_alpha', 'rgba')):
        r = summarise(c, P, C + f, names=['self'] + list(ps))
        expect_changes(c, rule, 'colour ' + f, r, {'self.' + q: sym(q).num() for q in ps})


def check(c):
    P = c.P
    settings(c, P)
    joints(c, P)
    shapes(c, P)
    world(c, P)
