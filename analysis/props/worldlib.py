"""Vocabulary for world, list and contact life-cycle specifications."""
from ..spec import *

SOME = (('d', 'Some'), '0')
NONE = S(term(('agg', 'std::option::Option', 'None', ())))
DL = 'b2rs_double_linked_list::DoubleLinkedList::<T>::'
SL = 'b2rs_linked_list::LinkedList::<T>::'


def some(ptr): return S(term(('agg', 'std::option::Option', 'Some', (('0', ptr),))))
def isnone(o): return o.is_(0, 2)
def deref(o): return o.at(*SOME)
def raw(o): return S(o.n)
def node(x): return x if isinstance(x, int) else x.n if isinstance(x, Obj) else nd(x)


def place(o, *keys):
    """address of a field stored inside the object."""
    return term(('ptr', ('H', o.n), tuple(keys)))


def peq(a, b):
    if a == b:
        return S(TRUE)
    u, w = sorted((a, b))
    return S(E._mk(('ite', E.var_of(('peq', u, w)), TRUE, FALSE)))


def record(name, ret=None):
    """hook: note the call with its arguments and guard; the callee is decided elsewhere."""
    def h(e, fr, st, args, tys, dt, line, fop):
        from ..engine import Effect, UNIT
        v = UNIT
        if ret is not None:
            n = sum(1 for x in e.effects if x.kind == 'call' and x.name == name)
            v = ret(e, args, n)
        e.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=list(args), ret=v, mem=dict(st.mem), argtys=tys, info={'rec': True}))
        return v
    return h


def calls(effects, name):
    return [x for x in effects if x.kind == 'call' and x.name == name]


def expect_calls(c, rule, construct, effects, name, want, under=None):
    """exactly these calls happen: want = [(args, condition)]; args are nodes (None = any)."""
    if under is not None and under.n == FALSE:
        c.ob(rule, construct + ' can succeed', False, 'the operation always fails')
    got = calls(effects, name)
    u = under.n if under is not None else TRUE
    left = []
    tot = [FALSE] * len(want)
    for g in got:
        guard = E.AND(g.guard, u)
        if guard == FALSE:
            continue
        for i, (a, cond) in enumerate(want):
            if all(w is None or same(E.constrain(x, guard), E.constrain(node(w), guard)) for w, x in zip(a, g.args)):
                tot[i] = E.OR(tot[i], guard)
                break
        else:
            left.append(g)
    for i, (a, cond) in enumerate(want):
        wc = E.AND(nd(cond), u)
        c.ob(rule, '%s: %s %s' % (construct, name, ', '.join('' if x is None else E.show(node(x), 3)[:60] for x in a)), tot[i] == wc,
             'happens when %s instead of %s' % (E.show(tot[i], 4)[:300], E.show(wc, 4)[:300]))
    c.ob(rule, '%s: no other %s' % (construct, name), not left, '; '.join('%s when %s' % ([E.show(a, 3)[:80] for a in g.args], E.show(E.AND(g.guard, u), 3)[:200]) for g in left)[:800])


def order(effects, *names):
    """positions of the first of each named call, in effect order."""
    pos = {}
    for i, x in enumerate(effects):
        if x.kind == 'call' and x.name in names:
            pos.setdefault(x.name, i)
    return pos


def uf(name, *args, sym_args=False):
    """uninterpreted predicate of its arguments."""
    a = [node(x) for x in args]
    if sym_args:
        a.sort()
    return S(E._mk(('ite', E.var_of(('uf', name) + tuple(a)), TRUE, FALSE)))


def ask(name, sym_args=False, drop=0):
    """hook for a predicate decided elsewhere: the answer is an uninterpreted function of the arguments."""
    return record(name, lambda e, a, n: uf(name, *a[drop:], sym_args=sym_args).n)


def writes(effects, deep=True):
    out = []
    for x in effects:
        if x.kind == 'write':
            out.append(x)
        elif x.kind == 'loop' and deep:
            out += writes(x.sub)
    return out


def outside(x):
    """the written location is not a function local."""
    b = x.loc[0]
    return not (isinstance(b, tuple) and b and b[0] == 'L')


def scan(c, rule, construct, loop, head, link):
    """the loop walks the list starting at `head` (an Option node), once per element; returns (element, live) or None."""
    for key, (i, s, n) in loop.mus.items():
        if n is None or E.constrain(i, loop.guard) != E.constrain(node(head), loop.guard):
            continue
        cur = deref(Obj(s))
        back = loop.e.info['back_pc']
        if E.constrain(n, back) == E.constrain(cur.at(*link).n, back):
            c.ob(rule, construct + ' visits every element of the list', True)
            return cur, ~isnone(Obj(s))
    c.ob(rule, construct + ' visits every element of the list', False, 'no cursor starts at %s and follows the links: %s' % (
        E.show(node(head), 3), [(E.show(i, 2)[:60], E.show(n, 3)[:80] if n is not None else '') for i, s, n in loop.mus.values()][:4]))
    return None


def panics_in(L):
    r = FALSE
    for x in L.sub:
        if x.kind == 'panic':
            r = E.OR(r, x.guard)
        elif x.kind == 'loop':
            r = E.OR(r, panics_in(Loop(x)).n)
    return S(r)


def exists(m, back):
    """the elements walked over exist: a pass over the first n elements of a list also ends where the list ends."""
    r = TRUE
    for v in E.support(back):
        at = E.atom(v)
        if at[0] == 'lt' and len(at[1]) == 2:
            rest = E.sub(m, E.num(at[1]))
            p = payload(rest) if is_term(rest) else None
            if p and p[0] == 'num' and len(p[1]) == 1 and p[1][0][1] == 1 and len(p[1][0][0]) == 1:
                q = payload(p[1][0][0][0][0])
                if q[0] == 'proj' and q[2] == 'len':
                    r = E.AND(r, E.lt(m, rest))
    return r


def counted(c, rule, construct, loop, n, start=0):
    """the loop runs its body for start, start+1, .. n-1 and never stops early; returns (index, live) or None."""
    fine = (~panics_in(loop)).n
    back = loop.e.info['back_pc']
    n = n if isinstance(n, S) else S(E.const(n))
    for key, (i, m, nx) in loop.mus.items():
        if nx is None or not E.isnum(m) or not E.isnum(i) or E.constrain(i, loop.guard) != E.const(start):
            continue
        if E.constrain(nx, back) != E.add(m, E.ONE):
            continue
        live = S(m) < n
        g = E.AND(E.AND(loop.guard, fine), exists(m, back))
        if E.AND(back, g) == E.AND(live.n, g):
            ok = all(E.AND(E.AND(x, g), live.n) == FALSE for x in loop.exits)
            c.ob(rule, construct + ' runs over the whole range', ok, 'may stop early when %s' % [E.show(x, 3) for x in loop.exits])
            return S(m), live & S(exists(m, back))
    c.ob(rule, construct + ' runs over the whole range', False, 'no counter from %d to %s: %s' % (start, E.show(n.n, 3), [(E.show(i, 2)[:60], E.show(x, 3)[:80] if x is not None else '') for i, s, x in loop.mus.values()][:4]))
    return None


def untouched(c, rule, construct, effects, allow=()):
    """no location outside the function's own variables is written, except those listed."""
    bad = [x for x in writes(effects) if outside(x) and E.showloc(*x.loc) not in allow]
    c.ob(rule, construct + ' changes nothing else', not bad, '; '.join(str(x)[:160] for x in bad[:3]))


def panics_top(r):
    """failures outside loops (inside, only entries pointing to dead objects can fail; list integrity is C02 and C03)."""
    t = FALSE
    for x in r.effects:
        if x.kind == 'panic':
            t = E.OR(t, x.guard)
    return S(t)


FXM = 'b2_fixture::B2fixture::<D>::'
BDM = 'b2_body::B2body::<D>::'
MGR = 'b2_contact_manager::B2contactManager::<D>::'
PARTS = {
    DL + 'push_front': record('insert'), DL + 'remove': record('remove'), DL + 'clear': record('clear'),
    SL + 'push_front': record('add fixture'), SL + 'remove': record('drop fixture'), SL + 'remove_all': record('drop fixtures'), SL + 'clear': record('drop fixtures'),
    MGR + 'destroy': record('end contact'), 'private::dynamics::b2_world::destroy_joint': record('end joint'), 'b2_world::B2world::<D>::destroy_joint': record('end joint'),
    FXM + 'destroy_proxies': record('remove proxies'), FXM + 'create_proxies': record('create proxies'), FXM + 'synchronize': record('synchronise'),
    BDM + 'reset_mass_data': record('mass'), 'private::dynamics::b2_body::reset_mass_data': record('mass'), BDM + 'synchronize_fixtures': record('synchronise all'), BDM + 'set_awake': record('wake'),
    'b2_broad_phase::B2broadPhase::<UserDataType>::touch_proxy': record('touch')}


def walk(c, rule, construct, L, head, link, when, np):
    """the loop runs exactly `when`, over every element of the list, without stopping early; returns (element, live)."""
    u = np.n
    c.ob(rule, construct + ' happens exactly when it should', E.AND(L.guard, u) == E.AND(nd(when), u), 'happens when ' + E.show(E.AND(L.guard, u), 4)[:300])
    sc = scan(c, rule, construct, L, head, link)
    if sc is None:
        return None
    cur, live = sc
    fine = E.AND(L.guard, E.AND((~panics_in(L)).n, u))
    c.ob(rule, construct + ' reaches the end', all(E.AND(E.AND(x, live.n), fine) == FALSE for x in L.exits), 'may stop early')
    return cur, live


def at_call(r, x, ptr, *keys):
    """value of a field at the moment of a recorded call."""
    return E.constrain(r.value(ptr, keys, mem=x.mem), x.guard)


def pick(c, rule, construct, ls, head):
    """the loop that walks the list starting at head."""
    got = [L for L in ls if any(n is not None and E.constrain(i, L.guard) == E.constrain(node(head), L.guard) for i, s, n in L.mus.values())]
    c.ob(rule, construct + ': one pass over the list', len(got) == 1, '%d passes' % len(got))
    return got[0] if len(got) == 1 else None


def before(c, rule, construct, es, a, b):
    """every recorded call a precedes every recorded call b (loops count as a whole)."""
    def has(x, n): return (x.kind == 'call' and x.name == n) or (x.kind == 'loop' and any(has(y, n) for y in x.sub))
    ia = [i for i, x in enumerate(es) if has(x, a)]
    ib = [i for i, x in enumerate(es) if has(x, b)]
    c.ob(rule, '%s: %s precedes %s' % (construct, a, b), not ia or not ib or max(ia) < min(ib), 'out of order')


def fails_beyond(n, allowed=None):
    """part of the failure condition n that is neither allowed nor due to a weak reference whose object is gone."""
    n = n.n if isinstance(n, S) else n
    if allowed is not None:
        n = E.AND(n, (~allowed).n)
    for v in E.support(n):
        a = E._mk(('ite', v, TRUE, FALSE))
        if E.show(a, 2).startswith('alive('):
            n = E.AND(n, a)
    return n


def locof(o):
    """location (root, path) of an object reached through its owner."""
    p = payload(o.ptr()) if is_term(o.ptr()) else None
    return p[1], p[2]


def parts(v, key):
    """leaf fields of a stored aggregate."""
    p = payload(v) if is_term(v) else None
    if p and p[0] == 'agg' and p[1] != 'std::option::Option':
        out = []
        for f, x in p[3]:
            out += parts(x, key + (f,))
        return out
    return [(key, v)]


def iteration_writes(c, rule, lab, L, obj, want, u):
    """one iteration leaves exactly these values in the element (last write wins) and changes nothing else."""
    base = E.show(obj.n, 99)
    got = {}
    for x in writes(L.sub):
        if not outside(x) or E.AND(x.guard, u.n) == FALSE:
            continue
        loc = E.showloc(*x.loc)
        if not loc.startswith(base + '.'):
            c.ob(rule, lab + ' changes only the element', False, str(x)[:200])
            continue
        key = tuple(loc[len(base) + 1:].split('.'))
        for ks, v in parts(x.value, key):
            if E.AND(x.guard, u.n) == u.n:
                got[ks] = v
            else:
                old = got.get(ks)
                if old is None:
                    o = obj.at(*ks)
                    old = E.like(o.n, v)
                got[ks] = E.ite(E.constrain(x.guard, u.n), v, old) if hasattr(E, 'ite') else v
    for k, v in want.items():
        g = got.pop(k, None)
        w = nd(v) if isinstance(v, S) else v
        if g is None:
            o = obj.at(*k)
            g = E.like(o.n, w)
        c.ob(rule, '%s stores %s' % (lab, '.'.join(k)), same(E.constrain(g, u.n), E.constrain(w, u.n)), 'stores %s' % E.show(E.constrain(g, u.n), 4)[:200])
    c.ob(rule, lab + ' stores nothing else', not got, str({'.'.join(k): E.show(v, 3)[:60] for k, v in got.items()}))


def flag_changes(c, rule, lab, eng, es, want, u, ignore=(), bits=8):
    """the writes among these effects change exactly the listed flags and values: want = [(Obj, {bit: (condition, value)} or S value)]."""
    u = nd(u)
    got = {}
    names = {E.showloc(*locof(o)): (o, w) for o, w in want}
    for x in es:
        if x.kind != 'write' or not outside(x) or E.AND(x.guard, u) == FALSE:
            continue
        loc = E.showloc(*x.loc)
        if any(loc.startswith(i) for i in ignore):
            continue
        if loc not in names:
            c.ob(rule, lab + ' changes nothing else', False, str(x)[:250])
            continue
        o = names[loc][0]
        got.setdefault(loc, []).append(x)
    for loc, (o, w) in names.items():
        xs = got.get(loc, [])
        if isinstance(w, dict):
            for b in range(bits):
                old = E.flag_atom(o.n, b)
                cur = old
                for x in xs:
                    cur = E.ite(x.guard, eng.flagbit(x.value, b), cur)
                wv = old
                if b in w:
                    wv = E.ite(nd(w[b][0]), nd(w[b][1]), old)
                c.ob(rule, '%s: flag %d of %s' % (lab, b, loc[-60:]), same(E.constrain(cur, u), E.constrain(wv, u)), 'becomes %s' % E.show(E.constrain(cur, u), 4)[:200])
        else:
            v = nd(w)
            cur = E.like(o.n, v)
            for x in xs:
                cur = E.ite(x.guard, x.value if E.isbool(x.value) or E.isnum(x.value) else E.like(x.value, v) if is_term(x.value) else eng.coerce_num(E.constrain(x.value, x.guard)), cur)
            c.ob(rule, '%s: %s' % (lab, loc[-60:]), same(E.constrain(cur, u), E.constrain(v, u)), 'becomes %s' % E.show(E.constrain(cur, u), 4)[:200])


def inner(L):
    return [Loop(x) for x in L.sub if x.kind == 'loop']


def row_writes(c, rule, lab, r, es, u, want, ignore=()):
    """writes to the listed records leave exactly these values: want = [(location Obj, values Obj before, {keys: S})]."""
    u = nd(u)
    rows = []
    for o, before_, w in want:
        rows.append((E.showloc(*locof(o)), before_, w, {}))
    for x in es:
        if x.kind != 'write' or not outside(x) or E.AND(x.guard, u) == FALSE:
            continue
        loc = E.showloc(*x.loc)
        if any(loc.startswith(i) for i in ignore):
            continue
        for name, b, w, cur in rows:
            if not loc.startswith(name + '.'):
                continue
            rel = tuple(loc[len(name) + 1:].split('.'))
            hit = [k for k in w if k[:len(rel)] == rel]
            if not hit:
                c.ob(rule, '%s changes only what it should' % lab, False, str(x)[:250])
            for k in hit:
                old = cur.get(k, b.num(*k).n)
                v = r.value(x.value, k[len(rel):], like=w[k].n) if len(k) > len(rel) else x.value
                cur[k] = E.ite(x.guard, v, old)
            break
        else:
            c.ob(rule, '%s changes nothing else' % lab, False, str(x)[:250])
    for name, b, w, cur in rows:
        for k, v in w.items():
            g = E.constrain(cur.get(k, b.num(*k).n), u)
            wv = E.constrain(nd(v), u)
            c.ob(rule, '%s: %s of %s' % (lab, '.'.join(k), name[-40:]), same(g, wv), show_difference(g, wv, 4)[:400] if not same(g, wv) else '')


def entry_of(L, name):
    """contents of a named array or value at the start of an iteration (symbol), or its initial object."""
    for k, (i, s, n) in L.mus.items():
        if E.showloc(*k) == name:
            return Obj(nolen(s))
    return None
