"""Contact update: touching state, impulse matching, events."""
from ..spec import *
from .worldlib import *
from .c03 import AWAKE, body, k_

CF = ('index_a', 'index_b', 'type_a', 'type_b')
EV = 'b2_world_callbacks::B2contactListener::'


def evaluate(e, fr, st, args, tys, dt, line, fop):
    record('evaluate')(e, fr, st, args, tys, dt, line, fop)
    e.store(st, args[1], sym('fresh').n, fr)
    from ..engine import UNIT
    return UNIT


def same_feature(x, y):
    r = S(TRUE)
    for g in CF:
        r = r & x.num('id', 'cf', g).eq(y.num('id', 'cf', g))
    return r


def check(c):
    P = c.P
    c.rule('update', 'after an update the contact is enabled, touching exactly when overlapping, carries the impulses of persisting points, and bodies wake when touching changes')
    c.rule('events', 'begin, end and pre-solve are reported exactly at the respective transitions, about this contact, with its previous manifold')
    for new in range(3):
        for old in range(3):
            update(c, P, new, old)
    c.rule('events', 'post-solve is left to the solver; nothing else is reported')


def update(c, P, new, old):
    lab = '%d new, %d old points: ' % (new, old)
    hooks = dict(AWAKE)
    hooks['b2_contact::B2contactDynTrait::evaluate'] = evaluate
    hooks['b2_collision::b2_test_overlap_shapes'] = ask('shapes overlap')
    fix = {'fresh.point_count': E.const(new), 'self.base.m_manifold.point_count': E.const(old)}
    r = summarise(c, P, 'b2_contact::B2contact::<D>::update', names=['self', 'listener'], hooks=hooks, fix=fix, unroll=4)
    s, lst = sym('self'), sym('listener')
    k = s.at('base')
    fa, fb = k.at('m_fixture_a'), k.at('m_fixture_b')
    ba, bb = body(fa), body(fb)
    np = ~panics(r)
    sensor = fa.bool('m_is_sensor') | fb.bool('m_is_sensor')
    was = k.flag(1, 'm_flags')
    ov = calls(r.effects, 'shapes overlap')
    if not c.ob('update', lab + 'one overlap test', len(ov) == 1, '%d' % len(ov)):
        return
    ev = calls(r.effects, 'evaluate')
    if not c.ob('update', lab + 'one manifold evaluation', len(ev) == 1, '%d' % len(ev)):
        return
    ov, ev = ov[0], ev[0]
    c.ob('update', lab + 'sensors are tested for overlap only', E.AND(ov.guard, np.n) == E.AND(sensor.n, np.n), 'tested when ' + E.show(ov.guard, 4))
    c.ob('update', lab + 'other contacts are evaluated', E.AND(ev.guard, np.n) == E.AND((~sensor).n, np.n), 'evaluated when ' + E.show(ev.guard, 4))
    for nm, got, want in (('first shape', ov.args[0], fa.ptr('m_shape', *SOME)), ('first child', ov.args[1], k.num('m_index_a').n), ('second shape', ov.args[2], fb.ptr('m_shape', *SOME)),
                          ('second child', ov.args[3], k.num('m_index_b').n)):
        c.ob('update', lab + 'overlap test uses the ' + nm, E.constrain(got, ov.guard) == want, 'uses ' + E.show(got, 4))
    for nm, e_, i, b in (('first', ov, 4, ba), ('second', ov, 5, bb), ('first', ev, 2, ba), ('second', ev, 3, bb)):
        for g in (('p', 'x'), ('p', 'y'), ('q', 's'), ('q', 'c')):
            v = r.value(e_.args[i], g, mem=e_.mem)
            c.ob('update', lab + 'placement of the %s shape %s' % (nm, '.'.join(g)), E.constrain(r.eng.coerce_num(v), e_.guard) == b.num('m_xf', *g).n, 'is ' + E.show(v, 4))
    f = sym('fresh')
    touching = ite(sensor, S(ov.ret), k_(new) > k_(0))
    want = {k.at('m_manifold', 'point_count'): ite(sensor, k_(0), k_(new))}
    m = k.at('m_manifold')
    for g in (('local_normal', 'x'), ('local_normal', 'y'), ('local_point', 'x'), ('local_point', 'y')):
        want[m.at(*g)] = ite(sensor, m.num(*g), f.num(*g))
    want[m.at('manifold_type')] = ite(sensor, raw(m.at('manifold_type')), raw(f.at('manifold_type')))
    for i in range(2):
        p, q = m.at('points', ('i', E.const(i))), f.at('points', ('i', E.const(i)))
        for g in (('local_point', 'x'), ('local_point', 'y')) + tuple(('id', 'cf', x) for x in CF):
            want[p.at(*g)] = ite(sensor, p.num(*g), q.num(*g))
        for g in ('normal_impulse', 'tangent_impulse'):
            v = k_(0)
            for j in reversed(range(old)):
                o = m.at('points', ('i', E.const(j)))
                v = ite(same_feature(o, q), o.num(g), v)
            want[p.at(g)] = ite(sensor, p.num(g), v if i < new else q.num(g))
    quiet = np & isnone(lst)

    def state(mem, u, what):
        ch = changes(r, mem)
        fl = ch.pop('self.base.m_flags', None)
        ok = False
        if fl is None:
            fl = term(('flags', k.at('m_flags').n, tuple((b, ch.pop('self.base.m_flags#%d' % b)) for b in range(8) if 'self.base.m_flags#%d' % b in ch)))
        if fl is not None:
            v = E.constrain(fl, u.n)
            ok = is_flags(v, k.at('m_flags').n, {2: TRUE, 1: E.constrain(touching.n, u.n)}, u)
        c.ob('update', lab + what + ': enabled and touching are set, other flags kept', ok, 'flags become ' + (E.show(fl, 4) if fl is not None else 'unchanged'))
        compare_manifold(c, r, lab + what, ch, want, u, m)
    state(None, quiet, 'contact after update')
    chg = ~sensor & (touching ^ was)
    expect_calls(c, 'update', lab + 'waking', r.effects, 'wake', [((fa.ptr('m_body', *SOME), S(TRUE)), chg), ((fb.ptr('m_body', *SOME), S(TRUE)), chg)], under=np)
    some_l = ~isnone(lst)
    first = None
    for nm, cond in (('begin_contact', ~was & touching), ('end_contact', was & ~touching), ('pre_solve', ~sensor & touching)):
        xs = calls(r.effects, EV + nm)
        tot = FALSE
        for x in xs:
            c.ob('events', lab + nm + ' reported once', E.AND(tot, x.guard) == FALSE, 'twice')
            tot = E.OR(tot, x.guard)
            c.ob('events', lab + nm + ' goes to the listener about this contact', x.args[0] == lst.ptr(*SOME) and x.args[1] == s.ptr(), '%s' % [E.show(a, 3) for a in x.args])
            i = r.effects.index(x)
            first = i if first is None else min(first, i)
            if nm != 'pre_solve':
                state(x.mem, S(x.guard) & np, 'contact seen at ' + nm)
            else:
                for p_ in ['point_count', 'manifold_type'] + ['points.%d.%s' % (j, g) for j in range(2) for g in ('normal_impulse', 'tangent_impulse')] + ['local_normal.x', 'local_point.y']:
                    keys = tuple(('i', E.const(int(q))) if q.isdigit() else q for q in p_.split('.'))
                    got = r.value(x.args[2], keys, mem=x.mem)
                    w = m.at(*keys).n if p_ != 'point_count' else E.const(old)
                    got = E.constrain(got, x.guard)
                    c.ob('events', lab + 'pre-solve passes the previous manifold ' + p_, got == w or got == E.num(E.patom(w)), 'passes ' + E.show(got, 4))
        c.ob('events', lab + nm + ' reported exactly when due', E.AND(tot, np.n) == E.AND((some_l & cond).n, np.n), show_difference(E.constrain(tot, np.n), E.constrain((some_l & cond).n, np.n)))
    names = [x.name for x in r.effects if x.kind == 'call' and x.name.startswith(EV)]
    c.ob('events', lab + 'no other event', all(n.split('::')[-1] in ('begin_contact', 'end_contact', 'pre_solve') for n in names), str(names))
    pos = [n.split('::')[-1] for n in names]
    c.ob('events', lab + 'pre-solve comes after begin', 'begin_contact' not in pos or 'pre_solve' not in pos or pos.index('begin_contact') < pos.index('pre_solve'), str(pos))
    if first is not None:
        w = [x for x in writes(r.effects[first:]) if E.showloc(*x.loc).startswith('self.') and E.AND(x.guard, some_l.n) != FALSE]
        c.ob('events', lab + 'what the listener changes is kept', not w, '; '.join(str(x)[:150] for x in w))


def is_flags(v, base, want, u):
    """v is the flag word `base` with exactly these bits replaced."""
    for cond, t in E.leaves(v, u.n):
        p = payload(t)
        if p[0] != 'flags' or p[1] != base:
            return False
        bits = dict(p[2])
        for b, x in bits.items():
            if b not in want:
                return False
            if E.constrain(x, cond) != E.constrain(want[b], cond):
                return False
        for b in want:
            if b not in bits and E.constrain(want[b], cond) != E.constrain(E.flag_atom(base, b), cond):
                return False
    return True


def compare_manifold(c, r, what, ch, want, u, m):
    eng = r.eng
    base = 'self.base.m_manifold'
    extra = [p for p in ch if not p.startswith(base)]
    expect_changes(c, 'update', what + ' (outside the manifold)', r, {}, under=u, got={p: ch[p] for p in extra})
    for o, w in want.items():
        keys = []
        n = o.n
        while n != m.n:
            keys.append(payload(n)[2])
            n = payload(n)[1]
        keys.reverse()
        got = lookup(r, ch, base, tuple(keys))
        wn = node(w)
        if E.isnum(wn) and not E.isnum(got):
            got = eng.coerce_num(got)
        g, w_ = E.constrain(got, u.n), E.constrain(wn, u.n)
        ok = same(g, w_)
        c.ob('update', '%s: manifold %s' % (what, '.'.join(str(x) if not isinstance(x, tuple) else E.show(x[1]) for x in keys)), ok, '' if ok else show_difference(g, w_, 3))


def lookup(r, ch, base, keys):
    """value of base.keys among the changes, else initial."""
    for n in range(len(keys), -1, -1):
        p = '.'.join([base] + ['[%s]' % E.show(x[1]) if isinstance(x, tuple) else x for x in keys[:n]])
        if p in ch:
            v = ch[p]
            for kk in keys[n:]:
                v = r.eng.field(v, kk)
            return v
    o = sym('self').at('base', 'm_manifold')
    return r.eng.field_path(o.n, keys) if hasattr(r.eng, 'field_path') else o.at(*keys).n
