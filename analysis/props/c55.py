"""Ropes: set-up, tuning, one step and reset."""
from ..spec import *
from .c26 import PI
from .c28 import unit, EPS, both
from .contactlib import each, idx

R, B = 'private::rope::b2_rope::', 'b2_rope::B2rope::'
rope = sym('self')
PS, SC, BC, T = rope.at('m_positions'), rope.at('m_stretch_constraints'), rope.at('m_bend_constraints'), rope.at('m_tuning')


def perp(v): return V(-v.y, v.x)


def span(v):
    """the length normalisation reports: zero for vectors shorter than machine epsilon."""
    l = length(v)
    return ite(l < EPS, k(0), l)


class Con:
    """one constraint and the particles it joins, as they are when its turn comes."""

    def __init__(self, e, seq, ends):
        self.o = idx(e.cur(seq), e.i)
        ps = e.cur(PS)
        self.p = [idx(ps, self.o.num('i%d' % j)) for j in ends]
        self.m = [self.o.num('inv_mass%d' % j) for j in ends]
        self.x = [p.vec('m_ps') for p in self.p]
        self.v = [p.vec('m_vs') for p in self.p]
        self.dx = [p.vec('m_ps') - p.vec('m_p0s') for p in self.p]

    def moved(self, what, old, by, when):
        return {p.at(what): both(when, o + b, o) for p, o, b in zip(self.p, old, by)}


def bend(q, o):
    """gradient of the bend angle at the three particles, the angle, and whether it is defined."""
    d1, d2 = q.x[1] - q.x[0], q.x[2] - q.x[1]
    angle = fn('atan2', cross(d1, d2), dot(d1, d2))
    iso = T.bool('isometric')
    a = ite(iso, o.num('l1') * o.num('l1'), dot(d1, d1))
    b = ite(iso, o.num('l2') * o.num('l2'), dot(d2, d2))
    g1, g2 = (k(-1) / a) * perp(d1), (k(1) / b) * perp(d2)
    J = [-g1, g1 - g2, g2]
    eff = sum((m * dot(j, j) for m, j in zip(q.m, J)), k(0))
    return J, angle, ite(T.bool('fixed_effective_mass'), o.num('inv_effective_mass'), eff), (a * b).eq(0)


def stretch_pbd(q, dt):
    d = q.x[1] - q.x[0]
    s = q.m[0] + q.m[1]
    f = T.num('stretch_stiffness') * (q.o.num('l') - span(d))
    u = unit(d)
    return q.moved('m_ps', q.x, [-(f * (q.m[0] / s)) * u, (f * (q.m[1] / s)) * u], ~s.eq(0))


def bend_distance(q, dt):
    d = q.x[1] - q.x[0]
    s = q.m[0] + q.m[1]
    f = T.num('bend_stiffness') * (q.o.num('l1') + q.o.num('l2') - span(d))
    u = unit(d)
    return q.moved('m_ps', q.x, [-(f * (q.m[0] / s)) * u, (f * (q.m[1] / s)) * u], ~s.eq(0))


def compliant(q, dt, C, J, s, ok):
    """one compliant-constraint correction: spring and damper integrated over the step."""
    o = q.o
    alpha = k(1) / (o.num('spring') * dt * dt)
    sigma = alpha * (dt * dt * o.num('damper')) / dt
    cdot = sum((dot(j, d) for j, d in zip(J, q.dx)), k(0))
    imp = -((C + alpha * o.num('lambda') + sigma * cdot) / ((1 + sigma) * s + alpha))
    w = q.moved('m_ps', q.x, [(m * imp) * j for m, j in zip(q.m, J)], ok)
    w[o.at('lambda')] = ite(ok, o.num('lambda') + imp, o.num('lambda'))
    return w


def stretch_xpbd(q, dt):
    d = q.x[1] - q.x[0]
    u = unit(d)
    s = q.m[0] + q.m[1]
    return compliant(q, dt, span(d) - q.o.num('l'), [-u, u], s, ~s.eq(0))


def bend_angle(q, dt):
    J, angle, s, degenerate = bend(q, q.o)
    s = ite(s.eq(0), q.o.num('inv_effective_mass'), s)
    imp = -T.num('bend_stiffness') * angle / s
    return q.moved('m_ps', q.x, [(m * imp) * j for m, j in zip(q.m, J)], ~degenerate)


def bend_xpbd(q, dt):
    J, angle, s, degenerate = bend(q, q.o)
    return compliant(q, dt, angle, J, s, ~degenerate & ~s.eq(0))


def bend_forces(q, dt):
    J, angle, s, degenerate = bend(q, q.o)
    om = 2 * PI * T.num('bend_hertz')
    cdot = sum((dot(j, v) for j, v in zip(J, q.v)), k(0))
    m = k(1) / s
    imp = -dt * (m * om * om * angle + 2 * m * T.num('bend_damping') * om * cdot)
    return q.moved('m_vs', q.v, [(w * imp) * j for w, j in zip(q.m, J)], ~degenerate & ~s.eq(0))


def bend_height(q, dt):
    a1, a2 = q.o.num('alpha1'), q.o.num('alpha2')
    d = a1 * q.x[0] + a2 * q.x[2] - q.x[1]
    h = length(d)
    n = (k(1) / h) * d
    J = [a1 * n, -n, a2 * n]
    s = q.m[0] * a1 * a1 + q.m[1] + q.m[2] * a2 * a2
    imp = -T.num('bend_stiffness') * (k(1) / s) * h
    return q.moved('m_ps', q.x, [(m * imp) * j for m, j in zip(q.m, J)], ~h.eq(0) & ~s.eq(0))


def bend_triangle(q, dt):
    f = T.num('bend_stiffness') / (q.m[0] + q.m[2] + 2 * q.m[1])
    d = q.x[1] - (k(1) / 3) * (q.x[0] + q.x[1] + q.x[2])
    return q.moved('m_ps', q.x, [(2 * q.m[0] * f) * d, (-4 * q.m[1] * f) * d, (2 * q.m[2] * f) * d], S(TRUE))


SOLVERS = {'solve_stretch_pbd': (SC, (1, 2), False, stretch_pbd), 'solve_stretch_xpbd': (SC, (1, 2), True, stretch_xpbd),
           'solve_bend_pbd_angle': (BC, (1, 2, 3), False, bend_angle), 'solve_bend_xpbd_angle': (BC, (1, 2, 3), True, bend_xpbd),
           'apply_bend_forces': (BC, (1, 2, 3), True, bend_forces), 'solve_bend_pbd_distance': (BC, (1, 3), False, bend_distance),
           'solve_bend_pbd_height': (BC, (1, 2, 3), False, bend_height), 'solve_bend_pbd_triangle': (BC, (1, 2, 3), False, bend_triangle)}


def solvers(c, P):
    rule = 'correct'
    c.rule(rule, 'each constraint pass visits its constraints once, in order, and moves the joined particles by inverse mass times the stated correction')
    for f, (seq, ends, timed, want) in SOLVERS.items():
        r = summarise(c, P, R + f, names=['self', 'dt'] if timed else ['self'])
        bad = sym('dt').num() <= 0
        e = each(c, rule, f, r, seq, fails=lambda e: bad)
        if e is None:
            continue
        e.frame(r)
        q = Con(e, seq, ends)
        e.expect(want(q, sym('dt').num()))
        c.ob(rule, f + ' fails', panics(r).n == (bad.n if 'xpbd' in f else FALSE), 'fails when %s' % E.show(panics(r).n, 5))


class Passes:
    """the passes over one sequence, each starting from what the one before it left."""

    def __init__(self, c, rule, name, r, seq, n, first=None, under=None):
        self.c, self.rule, self.name, self.r, self.seq, self.n, self.under = c, rule, name, r, seq, n, under
        self.loops = [L for L in loops(r) if self._mu(L)]
        self.last = None
        self.first = first

    def _mu(self, L):
        for (root, path), x in L.mus.items():
            if root[0] == 'H':
                n = root[1]
                for key in path:
                    n = term(('proj', n, key))
                if n == self.seq.n and x[2] is not None:
                    return x
        return None

    def over(self, v, after):
        """the value, under the assumption that the operation goes ahead, is what `after` names."""
        if self.under is not None:
            v = E.constrain(v, self.under.n)
        return v == after or (is_term(v) and payload(v)[0] == 'upd' and payload(v)[1] == after and all(kk == 'len' for kk, _ in payload(v)[2]))

    def take(self, label, want=None):
        name = '%s: %s' % (self.name, label)
        if not self.c.ob(self.rule, name + ' takes place', bool(self.loops), 'no such pass over %s' % E.show(self.seq.n)):
            return None
        L = self.loops.pop(0)
        i, s, nx = self._mu(L)
        prev = self.seq.n if self.last is None else self.last
        self.c.ob(self.rule, name + ' starts from the state before it', any(self.over(i, x) for x in (prev if isinstance(prev, list) else [prev])), 'starts from %s' % E.show(i, 4))
        if self.under is not None:
            self.c.ob(self.rule, name + ' is always made', E.AND(self.under.n, E.NOT(L.guard)) == FALSE and E.AND(L.guard, E.NOT(self.under.n)) == FALSE, 'made when %s' % E.show(L.guard, 4))
        self.last = payload(s)[1] if is_term(s) and payload(s)[0] == 'upd' else s
        if want is None:
            return L
        e = Each(self.c, self.rule, name, L, self.n, self.r)
        if e.ok:
            e.expect(want(e))
        return e

    def done(self):
        self.c.ob(self.rule, self.name + ' makes no other pass', not self.loops, '%d further passes over %s' % (len(self.loops), E.show(self.seq.n)))
        got = changes(self.r)
        key = E.show(self.seq.n)
        v = got.get(key, got.get(key + '.*'))
        self.c.ob(self.rule, self.name + ' leaves %s as the last pass left it' % key, v is not None and self.last is not None and self.over(v, self.last), 'left as %s' % (v is not None and E.show(v, 4)))
        ln = got.get(key + '.len')
        if ln is not None:
            self.c.ob(self.rule, self.name + ' length of ' + key, same(ln, self.n), 'length %s' % E.show(ln, 4))


def tune_bend(t):
    def want(e):
        o = idx(e.cur(BC), e.i)
        l1, l2 = o.num('l1'), o.num('l2')
        om = 2 * PI * t.num('bend_hertz')
        j = k(1) / l1 + k(1) / l2
        s = o.num('inv_mass1') / (l1 * l1) + o.num('inv_mass2') * j * j + o.num('inv_mass3') / (l2 * l2)
        none = (l1 * l1 * l2 * l2).eq(0) | s.eq(0)
        m = k(1) / s
        return {o.at('spring'): ite(none, k(0), m * om * om), o.at('damper'): ite(none, k(0), 2 * m * t.num('bend_damping') * om)}
    return want


def tune_stretch(t):
    def want(e):
        o = idx(e.cur(SC), e.i)
        om = 2 * PI * t.num('stretch_hertz')
        s = o.num('inv_mass1') + o.num('inv_mass2')
        m = k(1) / s
        return {o.at('spring'): ite(s.eq(0), o.num('spring'), m * om * om), o.at('damper'): ite(s.eq(0), o.num('damper'), 2 * m * t.num('stretch_damping') * om)}
    return want


def tuning(c, P):
    rule = 'tune'
    c.rule(rule, 'new tuning is stored and the spring and damper of every constraint follow from its frequency, damping and masses')
    r = summarise(c, P, B + 'set_tuning', names=['self', 't'])
    t = sym('t')
    for seq, want, name in ((BC, tune_bend(t), 'bend tuning'), (SC, tune_stretch(t), 'stretch tuning')):
        p = Passes(c, rule, name, r, seq, seq.num('len'))
        p.take('springs', want)
        p.done()
    others(c, rule, 'tuning', r, {'self.m_tuning': t}, (BC, SC))


def others(c, rule, name, r, want, seqs):
    keys = [E.show(s.n) for s in seqs]
    got = {kk: v for kk, v in changes(r).items() if not any(kk == s or kk.startswith(s + '.') for s in keys)}
    expect_changes(c, rule, name, r, want, got=got, under=~panics(r))


def setup(c, P):
    rule = 'set up'
    c.rule(rule, 'creating a rope places each particle at its definition, links neighbours with their rest lengths and masses, and precomputes the bend terms')
    r = summarise(c, P, B + 'create', names=['self', 'def'])
    d = sym('def')
    n = d.at('vertices').num('len')
    c.ob(rule, 'a rope needs three particles', panics(r).n == (n < 3).n, 'fails when %s' % E.show(panics(r).n, 5))
    ps = Passes(c, rule, 'particles', r, PS, n)

    def particle(e):
        o, v = idx(e.cur(PS), e.i), idx(d.at('vertices'), e.i)
        w = v.vec('position') + d.vec('position')
        m = v.num('mass')
        return {o.at('m_bind_positions'): v.vec('position'), o.at('m_ps'): w, o.at('m_p0s'): w, o.at('m_vs'): V(0, 0), o.at('m_inv_masses'): ite(m > 0, k(1) / m, k(0))}
    ps.take('placed', particle)
    ps.done()
    if ps.last is None:
        return
    at = lambda i: idx(Obj(ps.last), i)

    def stretch(e):
        o = idx(e.cur(SC), e.i)
        a, b = at(e.i), at(e.i + 1)
        return {o.at('i1'): e.i, o.at('i2'): e.i + 1, o.at('l'): length(a.vec('m_ps') - b.vec('m_ps')), o.at('inv_mass1'): a.num('m_inv_masses'),
                o.at('inv_mass2'): b.num('m_inv_masses'), o.at('lambda'): k(0), o.at('spring'): k(0), o.at('damper'): k(0)}

    def bends(e):
        o = idx(e.cur(BC), e.i)
        q = [at(e.i), at(e.i + 1), at(e.i + 2)]
        x = [p.vec('m_ps') for p in q]
        m = [p.num('m_inv_masses') for p in q]
        e1, e2, s = x[1] - x[0], x[2] - x[1], x[2] - x[0]
        a, b = dot(e1, e1), dot(e2, e2)
        g1, g2 = (k(-1) / a) * perp(e1), (k(1) / b) * perp(e2)
        eff = sum((w * dot(j, j) for w, j in zip(m, [-g1, g1 - g2, g2])), k(0))
        flat = (a * b).eq(0)
        none = flat | dot(s, s).eq(0)
        w = {o.at('i%d' % (j + 1)): e.i + j for j in range(3)}
        w.update({o.at('inv_mass%d' % (j + 1)): m[j] for j in range(3)})
        w.update({o.at('l1'): length(x[0] - x[1]), o.at('l2'): length(x[1] - x[2]), o.at('lambda'): k(0), o.at('inv_effective_mass'): ite(flat, k(0), eff),
                  o.at('alpha1'): ite(none, o.num('alpha1'), dot(e2, s) / dot(s, s)), o.at('alpha2'): ite(none, o.num('alpha2'), dot(e1, s) / dot(s, s))})
        return w
    for seq, m, want, tune, name in ((SC, n - 1, stretch, tune_stretch, 'stretch constraints'), (BC, n - 2, bends, tune_bend, 'bend constraints')):
        p = Passes(c, rule, name, r, seq, m)
        p.take('linked', want)
        p.take('tuned', tune(d.at('tuning')))
        p.done()
    others(c, rule, 'rope', r, {'self.m_tuning': d.at('tuning'), 'self.m_position': d.vec('position'), 'self.m_gravity': d.vec('gravity'),
                                'self.m_stretch_count': n - 1, 'self.m_bend_count': n - 2}, (PS, SC, BC))


def zeroed(seq):
    return lambda e: {idx(e.cur(seq), e.i).at('lambda'): k(0)}


def restart(c, P):
    rule = 'reset'
    c.rule(rule, 'resetting puts every particle at rest in its bind position and clears the accumulated multipliers')
    r = summarise(c, P, B + 'reset', names=['self', 'pos'])
    at = sym('pos')

    def particle(e):
        o = idx(e.cur(PS), e.i)
        w = o.vec('m_bind_positions') + at.vec()
        return {o.at('m_ps'): w, o.at('m_p0s'): w, o.at('m_vs'): V(0, 0)}
    for seq, want in ((PS, particle), (SC, zeroed(SC)), (BC, zeroed(BC))):
        p = Passes(c, rule, 'reset', r, seq, seq.num('len'))
        p.take('all of ' + E.show(seq.n), want)
        p.done()
    others(c, rule, 'reset', r, {'self.m_position': at.vec()}, (PS, SC, BC))


def solver(name):
    """hook: a solver moves the particles as a function of the rope's state and the step."""
    def h(e, fr, st, args, tys, dt, line, fop):
        from ..engine import Effect, UNIT
        p = e.extend(args[0], 'm_positions')
        old = e.load(st, p)
        ins = [base(e.load(st, e.extend(args[0], f))) for f in ('m_positions', 'm_stretch_constraints', 'm_bend_constraints')]
        ln = e.load(st, e.extend(p, 'len'))
        e.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=list(args), ret=None, mem=dict(st.mem), argtys=tys, info={'pure': True}))
        e.store(st, p, E.app(name, *ins, *args[1:]), fr, line)
        e.store(st, e.extend(p, 'len'), ln, fr, line)
        return UNIT
    return h


def base(v):
    return payload(v)[1] if is_term(v) and payload(v)[0] == 'upd' else v


BEND = {'B2SpringAngleBendingModel': None, 'B2PbdAngleBendingModel': 'solve_bend_pbd_angle', 'B2XpbdAngleBendingModel': 'solve_bend_xpbd_angle',
        'B2PbdDistanceBendingModel': 'solve_bend_pbd_distance', 'B2PbdHeightBendingModel': 'solve_bend_pbd_height', 'B2PbdTriangleBendingModel': 'solve_bend_pbd_triangle'}
STRETCH = {'B2PbdStretchingModel': 'solve_stretch_pbd', 'B2XpbdStretchingModel': 'solve_stretch_xpbd'}


def stepped(c, P):
    rule = 'step'
    c.rule(rule, 'a step applies damping, gravity and bending springs, moves the particles, runs the chosen corrections the given number of times, and derives the velocities')
    dt, pos = sym('dt').num(), sym('pos').vec()
    go = ~dt.eq(0)
    hooks = {R + f: solver(f) for f in SOLVERS}
    for bm, bf in BEND.items():
        for sm, sf in STRETCH.items():
            r = summarise(c, P, B + 'step', names=['self', 'dt', 'its', 'pos'], hooks=hooks,
                          fix={'bending_model': term(('agg', 'b2_rope::B2bendingModel', bm, ())), 'stretching_model': term(('agg', 'b2_rope::B2stretchingModel', sm, ()))})
            name = 'step, %s, %s' % (bm[2:-12], sm[2:-15])
            lam = {}
            for seq in (SC, BC):
                p = Passes(c, rule, name, r, seq, seq.num('len'), under=go)
                p.take('multipliers of %s' % E.show(seq.n), zeroed(seq))
                p.done()
                lam[seq] = seq.n if p.last is None else p.last
            p = Passes(c, rule, name, r, PS, PS.num('len'), under=go)

            def forces(e):
                o = idx(e.cur(PS), e.i)
                d = fn('exp', -dt * T.num('damping'))
                free = o.num('m_inv_masses') > 0
                held = (k(1) / dt) * (o.vec('m_bind_positions') + pos - o.vec('m_p0s'))
                return {o.at('m_vs'): both(free, d * o.vec('m_vs') + dt * rope.vec('m_gravity'), held)}

            def move(e):
                o = idx(e.cur(PS), e.i)
                return {o.at('m_ps'): o.vec('m_ps') + dt * o.vec('m_vs')}

            def derive(e):
                o = idx(e.cur(PS), e.i)
                return {o.at('m_vs'): (k(1) / dt) * (o.vec('m_ps') - o.vec('m_p0s')), o.at('m_p0s'): o.vec('m_ps')}

            def apply(f, s, early=False):
                if f is None:
                    return s
                return E.app(f, s, SC.n if early else lam[SC], BC.n if early else lam[BC], *([nd(dt)] if SOLVERS[f][2] else []))
            p.take('forces', forces)
            if bf is None and p.last is not None:
                # the multipliers are not read by the bending springs, so clearing them earlier is as good
                p.last = [apply('apply_bend_forces', p.last, True), apply('apply_bend_forces', p.last)]
            p.take('move', move)
            L = p.take('corrections')
            if L is not None:
                i, s, nx = p._mu(L)
                want = apply(sf, apply(bf, base(s)))
                got = base(E.constrain(nx, L.e.info['back_pc']))
                c.ob(rule, name + ': corrections', got == want, 'each round gives %s instead of %s' % (E.show(got, 4), E.show(want, 4)))
                n = sym('its').num()
                ok = any(same(i, k(0)) and nx is not None and E.isnum(s) and same(E.constrain(nx, L.e.info['back_pc']), S(s) + 1)
                         and all(E.AND(x, (S(s) < n).n) == FALSE for x in L.exits) and E.AND(L.e.info['back_pc'], E.NOT((S(s) < n).n)) == FALSE
                         for i, s, nx in L.mus.values())
                ok = ok or any(same(i, n) and nx is not None and E.isnum(s) and same(E.constrain(nx, L.e.info['back_pc']), S(s) - 1)
                               and all(E.AND(x, (S(s) > 0).n) == FALSE for x in L.exits) and E.AND(L.e.info['back_pc'], E.NOT((S(s) > 0).n)) == FALSE
                               for i, s, nx in L.mus.values())
                c.ob(rule, name + ': number of rounds', ok, 'the rounds are not counted up to the number asked for')
                p.n = Obj(p.last).num('len')
            p.take('velocities', derive)
            p.done()
            others(c, rule, name, r, {}, (PS, SC, BC))
            c.ob(rule, name + ': fails', panics(r).n == FALSE, 'fails when %s' % E.show(panics(r).n, 4))


def drawn(c, P):
    rule = 'draw'
    c.rule(rule, 'drawing shows every link and every particle where it is, and changes nothing')
    r = summarise(c, P, B + 'draw', names=['self', 'draw'])
    others(c, rule, 'draw', r, {}, ())
    n = PS.num('len')
    at = lambda i: idx(PS, i)
    free, held, link = (tuple(f32(x) for x in q) for q in ((0.7, 0.2, 0.4), (0.1, 0.8, 0.1), (0.4, 0.5, 0.7)))

    def colour(v, want):
        return all(same(r.value(v, (q,)), w) for q, w in zip('rgb', want)) and same(r.value(v, ('a',)), k(1))

    def point(x, i):
        m = at(i).num('m_inv_masses') > 0
        return all(same(r.value(x.args[1], (q,)), getattr(at(i).vec('m_ps'), q)) for q in 'xy') and same(x.args[2], k(5)) and colour(x.args[3], [ite(m, a, b) for a, b in zip(free, held)])
    links = points = end = False
    for L in loops(r):
        kinds = [x.name.split('::')[-1] for x in L.sub if x.kind == 'call']
        full = Each(c, rule, 'drawn sequence', L, n - 1, r)
        if not full.ok:
            continue
        whole = all(E.AND(x, (full.i < n).n) == FALSE for x in full.exits)
        for x in L.sub:
            if x.kind != 'call' or x.guard != full.back:
                continue
            if x.name.endswith('draw_segment'):
                links = all(same(r.value(x.args[j], (q,)), getattr(at(full.i + (j - 1)).vec('m_ps'), q)) for j in (1, 2) for q in 'xy') and colour(x.args[3], link)
            elif x.name.endswith('draw_point'):
                points = point(x, full.i)
                end = end or whole
    end = end or any(x.kind == 'call' and x.name.endswith('draw_point') and x.guard == TRUE and point(x, n - 1) for x in r.effects)
    c.ob(rule, 'every link', links, 'the links are not all drawn between neighbouring particles')
    c.ob(rule, 'every particle', points and end, 'the particles are not all drawn')


def defaults(c, P):
    rule = 'defaults'
    c.rule(rule, 'default tuning is position-based stretching at full stiffness and angle bending at half stiffness, undamped')
    r = summarise(c, P, '<b2_rope::B2ropeTuning as std::default::Default>::default', names=[])
    want = {'damping': 0, 'stretch_stiffness': 1, 'stretch_hertz': 0, 'stretch_damping': 0, 'bend_stiffness': 0.5, 'bend_hertz': 1, 'bend_damping': 0}
    for f, v in want.items():
        c.ob(rule, 'default ' + f.replace('_', ' '), same(r.value(r.ret, (f,)), k(v)), E.show(r.value(r.ret, (f,)), 3))
    for f in ('isometric', 'fixed_effective_mass', 'warm_start'):
        c.ob(rule, 'default ' + f.replace('_', ' '), r.value(r.ret, (f,)) == FALSE, E.show(r.value(r.ret, (f,)), 3))
    for f, v, n in (('stretching_model', 'B2PbdStretchingModel', 2), ('bending_model', 'B2PbdAngleBendingModel', 6)):
        c.ob(rule, 'default ' + f.replace('_', ' '), ('::' + v + '{') in E.show(r.value(r.ret, (f,)), 3), E.show(r.value(r.ret, (f,)), 3))


def check(c):
    P = c.P
    defaults(c, P)
    solvers(c, P)
    stepped(c, P)
    drawn(c, P)
    tuning(c, P)
    setup(c, P)
    restart(c, P)
