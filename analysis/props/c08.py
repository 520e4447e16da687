"""Saving and loading: what is written is read back into the same place, and references still name the same objects."""
from ..spec import *
from ..check import AnchorMissing
from . import serlib as L
from . import worldlib as W
from .serlib import run, written, announced, reads, isconst
from ..engine import payload, term, is_term, TRUE, FALSE
from .. import expr as E

SELF = 'self'
KINDS = {'B2jointDef': {'body_a': ('body', 'm_island_index'), 'body_b': ('body', 'm_island_index')},
         'B2gearJointDef': {'joint1': ('joint', 'm_index'), 'joint2': ('joint', 'm_index')}}


def adt_named(P, name):
    c = [p for p in P.adts if p.split('::')[-1] == name]
    if len(c) != 1:
        raise AnchorMissing('type %s (%d candidates)' % (name, len(c)))
    return c[0]


def fields(P, adt):
    return [f[0] for f in P.adts[adt]['v'][0]['f']]


def writer(P, adt):
    c = [f for f in P.fns.values() if f['name'] == 'serialize' and f.get('trait') and 'Serialize' in f['trait'] and f['argc'] == 2
         and P.adt_of(P.pointee(f['locals'][1][0])) == adt]
    if len(c) != 1:
        raise AnchorMissing('save function of %s (%d candidates)' % (adt, len(c)))
    return c[0]


def reader(P, adt, name):
    """the visitor method producing a value of this type."""
    out = []
    for f in P.fns.values():
        if f['name'] == name and f['argc'] == 2:
            t = P.types[f['locals'][0][0]]
            if t['k'] == 'adt' and t['p'] == 'std::result::Result' and P.adt_of(t['a'][0]) == adt:
                out.append(f)
    if len(out) != 1:
        raise AnchorMissing('load function %s of %s (%d candidates)' % (name, adt, len(out)))
    return out[0]


def keys(c, rule, P, what, r, names):
    """key name -> variant number of the reader's field enum; the enum lists the written names in order."""
    kt = r.keytype
    if kt is None:
        raise AnchorMissing('field names of ' + what)
    vs = [v['n'].lower() for v in P.adts[kt]['v']]
    c.ob(rule, what + ': the reader knows the written names, in order', [n for n in vs if n in names] == names, 'written %s, known %s' % (names, vs))
    return {n: i for i, n in enumerate(vs)}, len(vs)


def fieldlist(c, rule, what, r):
    ws = written(r)
    c.ob(rule, what + ': every field is written unconditionally at a fixed place', all(p is not None and k_ and g == TRUE for p, k_, v, g, t in ws) and [w[0] for w in ws] == list(range(len(ws))),
         '%s' % [(w[0], w[1], E.show(w[3], 3)) for w in ws])
    b = announced(r)
    c.ob(rule, what + ': the announced number of fields is the number written', len(b) == 1 and isconst(b[0][1]) == len(ws), 'announced %s, written %d' % ([E.show(x[1], 3) for x in b], len(ws)))
    return ws


def record_type(c, P, name, derived=False):
    rule = 'fields'
    adt = adt_named(P, name)
    c.count('records')
    fs = fields(P, adt)
    w = run(c, P, writer(P, adt), names=[SELF, 'sink'])
    ws = fieldlist(c, rule, name, w)
    kinds = KINDS.get(name, {})
    self_ = sym(SELF)
    src = {}
    for pos, key, v, g, t in ws:
        for f in fs:
            kind = kinds.get(f)
            o = self_.at(f)
            if kind and kind[0] == 'body':
                want = o.at(('d', 'Some'), '0', kind[1])
            elif kind:
                want = o.at(('d', 'Some'), '0', 'base', kind[1])
            else:
                want = o
            if like(v, want):
                src[f] = (pos, key)
    for f in fs:
        c.ob(rule, '%s: %s is saved' % (name, f), f in src, 'written: %s' % [(k_, E.show(v, 4)) for _, k_, v, _, _ in ws])
    c.ob(rule, name + ': nothing else is saved', len(src) == len(ws), 'written: %s' % [k_ for _, k_, _, _, _ in ws])
    # the positional reader
    r = run(c, P, reader(P, adt, 'visit_seq'))
    seq_ok(c, rule, P, name, r, fs, src, kinds)
    if derived:
        return ws
    m = run(c, P, reader(P, adt, 'visit_map'))
    map_ok(c, rule, P, name, m, fs, src, kinds, [w_[1] for w_ in ws])
    return ws


def like(v, o):
    """the written value is this part of the saved object."""
    for mk in (lambda: o.n, lambda: o.ptr(), lambda: o.num().n, lambda: o.bool().n):
        try:
            if v == mk():
                return True
        except Exception:
            pass
    return E.show(v, 99) == E.show(o.n, 99)


def okval(ret):
    p = payload(ret) if is_term(ret) else None
    if p and p[0] == 'agg' and p[2] == 'Ok':
        return dict(p[3])['0']
    return None


def matches(r, v, kind, x):
    """v is the decoded element x: itself, or the object at that position of the loader's table."""
    if v is None:
        return False
    if kind is None:
        return raw_eq(r, v, x)
    p = payload(v) if is_term(v) else None
    if not (p and p[0] == 'agg' and p[2] == 'Some'):
        return False
    table = 'm_body_array' if kind[0] == 'body' else 'm_all_joints'
    inner = dict(p[3])['0']
    idx = r.eng.coerce_num(x)
    want = sym(SELF).at('0', table)
    return E.show(inner, 99) == '&%s.[%s]' % (E.show(want.n, 99), E.show(idx, 99))


def raw_eq(r, v, x):
    if v == x:
        return True
    for mk in (lambda: r.eng.coerce_num(x), lambda: S(x).n, lambda: E.boolsym(x)):
        try:
            if v == mk():
                return True
        except Exception:
            pass
    return E.show(v, 99) == E.show(x, 99)


def seq_ok(c, rule, P, name, r, fs, src, kinds):
    v = okval(r.ret)
    if not c.ob(rule, name + ': reading in order yields the record', v is not None, E.show(r.ret, 3)):
        return
    for f in fs:
        got = r.eng.field(v, f)
        if f not in src:
            continue
        x = E.app('elem', E.const(src[f][0]))
        c.ob(rule, '%s: %s is read in order from the place it was written to' % (name, f), matches(r, got, kinds.get(f), x), 'is %s, was written as number %d' % (E.show(got, 6), src[f][0]))
    c.ob(rule, name + ': as many values are read as were written', len(reads(r, 'read')) == len(src), '%d read, %d written' % (len(reads(r, 'read')), len(src)))
    for x in reads(r, 'read'):
        seed_ok(c, rule, P, name, r, x)


def seed_ok(c, rule, P, name, r, x):
    """tables handed on to nested readers are the reader's own."""
    s = x.info['seed']
    if s is None:
        return
    p = payload(s)
    if p[0] != 'agg':
        c.ob(rule, name + ': nested reader context', False, E.show(s, 4))
        return
    for fld, v in p[3]:
        if fld in ('m_body_array', 'm_all_joints', 'm_world'):
            c.ob(rule, '%s: nested readers get its own %s' % (name, fld), E.show(v, 99) == '&%s' % E.show(sym(SELF).at('0', fld).n, 99), E.show(v, 6))


def theloop(c, rule, name, r):
    ls = loops(r)
    if not c.ob(rule, name + ': one pass over the keys', len(ls) == 1, '%d loops' % len(ls)):
        return None
    return ls[0]


def map_ok(c, rule, P, name, r, fs, src, kinds, names):
    ks, n = keys(c, rule, P, name, r, names)
    l = theloop(c, rule, name, r)
    v = okval(r.ret)
    if l is None or not c.ob(rule, name + ': reading by name yields the record', v is not None, E.show(r.ret, 3)):
        return
    at = [s for key, (i, s, nx) in l.mus.items() if key[1] == ('#n',)]
    if not c.ob(rule, name + ': keys are taken one after the other', len(at) == 1, ''):
        return
    more = E.boolsym(E.app('more', at[0]))
    c.ob(rule, name + ': reading by name ends when the keys end', len(l.exits) == 1 and E.AND(l.exits[0], more) == FALSE, '%s' % [E.show(x, 4) for x in l.exits])
    key = E.app('key', at[0])
    val = E.app('val', E.add(at[0], E.const(1)))
    for f in fs:
        if f not in src:
            continue
        got = r.eng.field(v, f)
        d = ks.get(src[f][1])
        hit = [(i, s, nx) for _, (i, s, nx) in l.mus.items() if s == got or (is_term(s) and is_term(got) and E.show(s) == E.show(got))]
        if not c.ob(rule, '%s: %s is filled while reading by name' % (name, f), len(hit) == 1 and d is not None, 'is ' + E.show(got, 4)):
            continue
        i, s, nx = hit[0]
        for k_ in range(n):
            g = E.AND(more, E.is_variant(key, k_, n))
            x = E.constrain(nx, g)
            if k_ == d:
                c.ob(rule, '%s: %s takes the value saved under its name' % (name, f), matches(r, x, kinds.get(f), val), 'is ' + E.show(x, 6))
            elif x != E.constrain(s, g):
                c.ob(rule, '%s: %s does not take the value saved under another name' % (name, f), False, 'under %s is %s' % ([a for a, b in ks.items() if b == k_], E.show(x, 6)))
    for x in reads(r, 'value'):
        seed_ok(c, rule, P, name, r, x)


JOINTS = ['Distance', 'Friction', 'Gear', 'Motor', 'Prismatic', 'Pulley', 'Revolute', 'Weld', 'Wheel']
DERIVED = ['B2vec2', 'B2Shape', 'B2circleShape', 'B2edgeShape', 'B2chainShape', 'B2filter', 'B2bodyDef']


def jname(j):
    return 'B2%sJointDef' % (j[0].lower() + j[1:])


def check(c):
    c.rule('fields', 'each field of a saved record is written once, and both readers put it back where it was taken from')
    P = c.prog('serde')
    for n in DERIVED:
        record_type(c, P, n, derived=True)
    record_type(c, P, 'B2jointDef')
    for j in JOINTS:
        record_type(c, P, jname(j))
    c.floor('records', c.counts['records'], 17)
    c.rule('rebuild', 'a saved definition takes each setting from the member its constructor fills from that setting')
    for j in JOINTS:
        joint_rebuild(c, P, j)
    body_rebuild(c, P)
    c.rule('context', 'each reader hands its context on unchanged')
    c.rule('lists', 'list elements are all written, in list order, and all read')
    c.rule('body', 'a loaded body has the saved settings and fixtures')
    c.rule('joint', 'a loaded joint has the saved kind and settings')
    c.rule('world', 'references are positions in the saved sequence, and are resolved in that sequence')
    c.rule('polygon', 'a loaded polygon has the saved points')
    c.rule('fixture', 'a loaded fixture has the saved shape, material, filter and user data')
    list_writer(c, P, 'LinkedList')
    list_writer(c, P, 'DoubleLinkedList')
    world(c, P)


# ------------------------------------------------------------------ rebuilding an object from its saved definition

# members whose constructor normalises the given value (idempotent: clamped lengths, unit axis); the formulas are decided by the joint properties
NORMALISED = {('Distance', 'length'), ('Distance', 'min_length'), ('Distance', 'max_length'), ('Prismatic', 'local_axis_a')}


def by_return(P, name, adt, argc=1):
    out = [f for f in P.fns.values() if f['name'] == name and f['argc'] == argc and P.adt_of(f['locals'][0][0]) == adt]
    return out


def one(what, fs):
    if len(fs) != 1:
        raise AnchorMissing('%s (%d candidates)' % (what, len(fs)))
    return fs[0]


def flat_agg(v, prefix=()):
    """leaves of nested aggregates: path -> value."""
    p = payload(v) if is_term(v) else None
    if p and p[0] == 'agg' and p[2] is None and 'B2vec2' not in p[1]:
        for f, x in p[3]:
            yield from flat_agg(x, prefix + (f,))
    else:
        yield prefix, v


def getdef(c, P, adt, src_adt):
    f = one('definition of a ' + src_adt, [f for f in by_return(P, 'get_def', adt) if P.adt_of(P.pointee(f['locals'][1][0])) == src_adt])
    return run(c, P, f, names=[SELF])


def text(v):
    return E.show(v, 99)


def strip_ref(s):
    """the object a (shared) reference or an optional one names."""
    if s.startswith('Option::Some{0:') and s.endswith('}'):
        s = s[len('Option::Some{0:'):-1]
    return s[1:] if s.startswith('&') else s


def joint_rebuild(c, P, j):
    rule = 'rebuild'
    name = jname(j)
    adt, jadt = adt_named(P, name), adt_named(P, name[:-3])
    g = getdef(c, P, adt, jadt)
    news = [f for f in by_return(P, 'new', jadt) if f.get('self')]
    n = run(c, P, one('constructor of ' + jadt, news), names=['def'])
    n2 = n.ret
    made = {'.'.join(p): text(v) for p, v in flat_agg(n2)}
    d = list(flat_agg(g.ret))
    c.ob(rule, '%s: the saved definition covers every setting' % name, {p[0] for p, _ in d} == set(fields(P, adt)), '')
    for p, v in d:
        fpath = '.'.join(p)
        s = strip_ref(text(v))
        c.ob(rule, '%s: %s is taken from one member of the joint' % (name, fpath), s.startswith('self.') and s[5:] in made, 'is ' + s[:120])
        if not s.startswith('self.') or s[5:] not in made:
            continue
        t = strip_ref(made[s[5:]])
        want = 'def.' + fpath
        ok = t == want or t == want + '.d.Some.0'
        if not ok and (j, fpath) in NORMALISED:
            ok = want in t
        c.ob(rule, '%s: the member %s is saved from is the one its constructor fills from it' % (name, fpath), ok, 'saved from %s, which is made as %s' % (s, t[:160]))
    # every member made from the definition is saved
    covered = {strip_ref(text(v))[5:] for _, v in d}
    for m, t in made.items():
        if 'def.' in t and m not in covered:
            c.ob(rule, '%s: %s follows from what is saved' % (name, m), derived_member(j, m), 'made as ' + t[:120])


def derived_member(j, m):
    """members computed from the saved ones (decided by the joint's own property)."""
    return m in {'Gear': {'m_type_a', 'm_type_b', 'm_body_c', 'm_body_d', 'm_constant'}, 'Pulley': {'m_constant'}, 'Prismatic': {'m_local_yaxis_a'}, 'Wheel': {'m_local_yaxis_a'}}.get(j, ()) or \
        (j == 'Gear' and m.startswith(('m_local_anchor_', 'm_local_axis_', 'm_reference_angle_', 'm_tolerance')))


def body_rebuild(c, P):
    rule = 'rebuild'
    dadt, badt = adt_named(P, 'B2bodyDef'), adt_named(P, 'B2body')
    g = getdef(c, P, dadt, badt)
    n = run(c, P, one('constructor of B2body', [f for f in by_return(P, 'new', badt, 2) if f.get('self')]), names=['def', 'world'])
    d = sym('def')
    s = sym(SELF)
    self_of = {}
    for f in fields(P, dadt):
        v = g.eng.field(g.ret, f)
        if f in ('allow_sleep', 'awake', 'fixed_rotation', 'bullet', 'enabled'):
            bit = [b for b in range(16) if v == s.flag(b, 'm_flags').n]
            if c.ob(rule, 'B2bodyDef: %s is taken from one flag' % f, len(bit) == 1, text(v)[:120]):
                got = n.eng.flagbit(n.eng.field(n.ret, 'm_flags'), bit[0])
                want = d.bool(f).n
                if f == 'awake':
                    # a static body never is awake
                    c.ob(rule, 'B2bodyDef: the flag awake is saved from is the one filled from it', 'def.awake' in text(got), text(got)[:160])
                else:
                    c.ob(rule, 'B2bodyDef: the flag %s is saved from is the one filled from it' % f, got == want, text(got)[:160])
            continue
        t = strip_ref(text(v))
        if not c.ob(rule, 'B2bodyDef: %s is taken from one member of the body' % f, t.startswith('self.'), t[:100]):
            continue
        x = n.ret
        for key in t[5:].split('.'):
            x = n.eng.field(x, key)
        c.ob(rule, 'B2bodyDef: the member %s is saved from is the one filled from it' % f, strip_ref(text(x)) == 'def.' + f, 'saved from %s, which is made as %s' % (t, text(x)[:120]))


# ------------------------------------------------------------------ containers: fixtures, bodies, joints, the world

WORLD, BODY = 'b2_world::B2world::<D>::', 'b2_body::B2body::<D>::'


def rec(name, ret=None):
    """note a call with the values behind its references."""
    def h(e, fr, st, args, tys, dt, line, fop):
        L.record(e, st, fr, line, name, args=[L.deref(e, st, a, t) if e.P.types[t]['k'] == 'ref' and not e.P.types[t].get('m') else a for a, t in zip(args, tys)])
        return e.coerce(e.sym(ret or name), dt)
    return h


def h_collect(e, fr, st, args, tys, dt, line, fop):
    return E.app('collected', args[0])


def h_iter(e, fr, st, args, tys, dt, line, fop):
    L.record(e, st, fr, line, 'listed', value=args[0])
    return E.app('list', args[0])


def h_reverse(e, fr, st, args, tys, dt, line, fop):
    p = args[0]
    old = e.load(st, p)
    o = payload(old) if is_term(old) else None
    e.store(st, p, E.app('reversed', old), fr, line)
    from ..engine import UNIT
    return UNIT


def h_entry(e, fr, st, args, tys, dt, line, fop):
    L.record(e, st, fr, line, 'visitor', value=args[-1], ty=tys[-1])
    return e.coerce(e.sym('loaded'), dt)


ENTRY = {'serde::Deserializer::deserialize_struct': h_entry, 'serde::Deserializer::deserialize_seq': h_entry}
LISTS = {'b2rs_double_linked_list::DoubleLinkedList::<T>::iter': h_iter, 'b2rs_linked_list::LinkedList::<T>::iter': h_iter,
         'std::iter::Iterator::collect': h_collect, 'std::slice::<impl [T]>::reverse': h_reverse}
MADE = {BODY + 'create_fixture': rec('create_fixture', 'fixture'), WORLD + 'create_body': rec('create_body', 'newbody'), WORLD + 'create_joint': rec('create_joint', 'newjoint'),
        WORLD + 'new': rec('new_world', 'world')}


def visitor_of(c, P, seed):
    """visit functions a reading context leads to; the context itself is handed on."""
    f = one('reader of ' + seed, [f for f in P.fns.values() if f['name'] == 'deserialize' and 'DeserializeSeed' in str(f.get('trait')) and P.adt_of(f['locals'][1][0]) == seed])
    r = run(c, P, f, hooks=ENTRY, names=[SELF, 'source'])
    vs = reads(r, 'visitor')
    short = seed.split('::')[-1]
    if not c.ob('context', short + ': reading is handed to one visitor', len(vs) == 1 and vs[0].guard == TRUE, '%d' % len(vs)):
        raise AnchorMissing('visitor of ' + seed)
    v = vs[0].info['value']
    p = payload(v) if is_term(v) else None
    c.ob('context', short + ': the visitor carries the given context', p is not None and p[0] == 'agg' and len(p[3]) == 1 and raw_same(r, p[3][0][1], SELF), text(v)[:120])
    va = P.adt_of(vs[0].info['ty'])
    out = {}
    for f in P.fns.values():
        if f['name'] in ('visit_seq', 'visit_map') and P.adt_of(f['locals'][1][0]) == va:
            out[f['name']] = f
    return out


def raw_same(r, v, name):
    return text(v) == name or text(v).startswith('&' + name) and '.' not in text(v)


def seed_adt(P, x):
    return P.adt_of(x.info['seedt']) if x.info['seed'] is not None else None


def seed_fields(x):
    p = payload(x.info['seed'])
    return dict(p[3]) if p[0] == 'agg' else {}


def own(v, fld):
    return text(v) == '&self.0.' + fld


def listing(c, P, what, fns, carry):
    """a list reader: one context per element, all elements; returns the element's context type."""
    rule = 'lists'
    r = run(c, P, fns['visit_seq'], listing=True, names=[SELF, 'seq'])
    l = theloop(c, rule, what, r)
    rs = reads(r, 'read')
    if l is None or not c.ob(rule, what + ': one kind of element is read', len(rs) == 1 and rs[0].info['seed'] is not None, '%d' % len(rs)):
        raise AnchorMissing(what)
    x = rs[0]
    more = E.boolsym(E.app('more', x.info['at']))
    c.ob(rule, what + ': reading stops only at the end', all(E.AND(e_, more) == FALSE for e_ in l.exits) and x.guard == l.guard, '%s' % [E.show(e_, 4) for e_ in l.exits])
    for fld in carry:
        c.ob(rule, '%s: elements get its own %s' % (what, fld), fld in seed_fields(x) and own(seed_fields(x)[fld], fld), '%s' % {k_: text(v)[:60] for k_, v in seed_fields(x).items()})
    return seed_adt(P, x)


def list_writer(c, P, name):
    rule = 'lists'
    f = one('save function of ' + name, [f for f in P.fns.values() if f['name'] == 'serialize' and P.adt_of(P.pointee(f['locals'][1][0]) if f['argc'] == 2 else None) == adt_named(P, name)])
    r = run(c, P, f, names=[SELF, 'sink'])
    ls = [l for l in loops(r) if any(x.kind == 'call' and x.name == 'element' for x in l.sub)]
    if not c.ob(rule, name + ': one pass writes the elements', len(ls) == 1, '%d' % len(ls)):
        return
    l = ls[0]
    el = [x for x in l.sub if x.kind == 'call' and x.name == 'element'][0]
    head = sym(SELF).at('head').n
    cur = [s for _, (i, s, n) in l.mus.items() if i == head]
    if c.ob(rule, name + ': the pass starts at the first element', len(cur) == 1, '%s' % [E.show(i, 4) for i, s, n in l.mus.values()]):
        o = Obj(cur[0])
        live = ~o.is_(0, 2)
        c.ob(rule, name + ': every element is written once', el.guard == live.n and text(el.info['value']) == text(o.at(('d', 'Some'), '0').n), '%s when %s' % (text(el.info['value'])[:80], E.show(el.guard, 4)))
        c.ob(rule, name + ': the pass ends with the list', all(E.AND(x, live.n) == FALSE for x in l.exits), '')
        nx = [n for _, (i, s, n) in l.mus.items() if s == cur[0]][0]
        c.ob(rule, name + ': the pass follows the links', 'get_next' in text(E.constrain(nx, live.n)), text(nx)[:120])


SHAPES = {0: ('AsCircle', 'B2circleShape'), 1: ('AsEdge', 'B2edgeShape'), 2: ('AsPolygon', 'B2polygonShape'), 3: ('AsChain', 'B2chainShape')}


def fixture(c, P, fns):
    rule = 'fixture'
    dadt, fadt = adt_named(P, 'B2fixtureDef'), adt_named(P, 'B2fixture')
    cr = [f for f in P.fns.values() if f['name'] == 'create' and f['argc'] == 3 and P.adt_of(P.pointee(f['locals'][1][0])) == fadt and f.get('self')]
    made = run(c, P, one('fixture construction', cr), names=[SELF, 'body', 'def'])
    ch = {k_: strip_ref(text(v)) for k_, v in changes(made).items()}
    w = run(c, P, writer(P, fadt), names=[SELF, 'sink'])
    ws = written(w)
    b = announced(w)
    places = sorted({p for p, *_ in ws if p is not None})
    c.ob(rule, 'every field of a fixture is written at a fixed place', all(p is not None for p, *_ in ws) and places == list(range(len(places))), '%s' % [(p, k_) for p, k_, *_ in ws])
    c.ob(rule, 'the announced number of fields is the number written', len(b) == 1 and isconst(b[0][1]) == len(places), 'announced %s, written %d' % ([E.show(x[1]) for x in b], len(places)))
    src = {}
    shape, kind = [], None
    for pos, key, v, g, t in ws:
        s = text(v)
        if 'get_type' in s or s.endswith('m_type'):
            kind = (pos, key)
            c.ob(rule, 'the kind of shape is always written', g == TRUE, E.show(g, 4))
        elif 'as_derived' in s:
            shape.append((pos, key, s, g))
        elif s.startswith('self.'):
            c.ob(rule, key + ' is always written', g == TRUE, E.show(g, 4))
            src[s] = (pos, key)
    if not c.ob(rule, 'the shape and its kind are written, kind first', kind is not None and len(shape) == 4 and len({(p, k_) for p, k_, *_ in shape}) == 1 and kind[0] < shape[0][0], '%s %s' % (kind, [x[:2] for x in shape])):
        return
    sp, sk = shape[0][:2]
    for vn in ('AsCircle', 'AsEdge', 'AsPolygon', 'AsChain'):
        c.ob(rule, 'a shape of kind %s is written whole' % vn, sum(1 for x in shape if x[2].endswith('.d.%s.0' % vn)) == 1, '%s' % [x[2][-30:] for x in shape])
    tot = FALSE
    for x in shape:
        tot = E.OR(tot, x[3])
    c.ob(rule, 'some shape is always written', tot == TRUE, E.show(tot, 4))
    for vi, (vn, sn) in SHAPES.items():
        for m in ('as_derived', 'get_type'):
            f = one('%s of %s' % (m, sn), [f for f in P.fns.values() if f['name'] == m and f['argc'] == 1 and P.adt_of(P.pointee(f['locals'][1][0])) == adt_named(P, sn)])
            s = text(run(c, P, f, names=[SELF]).ret)
            c.ob(rule, '%s of a %s' % (m, sn), s == ('ShapeAsDerived::%s{0:&self}' % vn if m == 'as_derived' else 'self.base.m_type'), s)
        f = [f for f in P.fns.values() if f['name'] == 'default' and P.adt_of(f['locals'][0][0]) == adt_named(P, sn)]
        r = run(c, P, one('default ' + sn, f))
        kv = r.eng.field(r.eng.field(r.ret, 'base'), 'm_type')
        c.ob(rule, 'the kind of a %s' % sn, text(kv).startswith('B2ShapeType::' + sn.replace('B2', 'E').replace('Shape', '').replace('Ec', 'EC').replace('Ee', 'EE').replace('Ep', 'EP')), text(kv))
    # what the loaded definition fills
    fill = {v[4:]: k_ for k_, v in ch.items() if v.startswith('def.')}       # definition field -> fixture member
    allf = fields(P, dadt)
    for how, f in fns.items():
        r = run(c, P, f, hooks=MADE, names=[SELF, 'src'])
        cs = reads(r, 'create_fixture')
        if not c.ob(rule, how + ': one fixture is created', len(cs) == 1 and cs[0].guard == TRUE, '%d' % len(cs)):
            continue
        body, d = cs[0].info['args']
        c.ob(rule, how + ': on the body being loaded', own(body, 'body'), text(body))
        if how == 'visit_map':
            ks, n = keys(c, rule, P, 'fixture', r, names_in_order(ws))
            l = theloop(c, rule, 'fixture by name', r)
            if l is None:
                continue
            at = [s for key, (i, s, nx) in l.mus.items() if key[1] == ('#n',)][0]
            more, key, val = E.boolsym(E.app('more', at)), E.app('key', at), E.app('val', E.add(at, E.const(1)))
            c.ob(rule, 'reading by name ends when the keys end', all(E.AND(x, more) == FALSE for x in l.exits), '')
        for fld in allf:
            got = r.eng.field(d, fld)
            if fld == 'shape':
                continue
            m = fill.get(fld)
            if not c.ob(rule, '%s: %s is a property of the fixture that is saved' % (how, fld), m in src, 'fills %s; saved %s' % (m, sorted(src))):
                continue
            pos, name = src[m]
            if how == 'visit_seq':
                c.ob(rule, '%s: %s is read from the place it was written to' % (how, fld), raw_eq(r, got, E.app('elem', E.const(pos))), 'is %s, written as number %d' % (text(got)[:80], pos))
            else:
                by_name(c, rule, r, l, how, fld, got, ks, n, name, more, key, val)
        # the shape: its kind decides how it is read
        if how == 'visit_seq':
            kv = E.app('elem', E.const(kind[0]))
            rd = [x for x in reads(r, 'read') if isconst(x.info['at']) == sp]
            base = TRUE
            val = E.app('elem', E.const(sp))
        else:
            kmu = [(s, nx) for _, (i, s, nx) in l.mus.items() if nx is not None and text(E.constrain(nx, E.AND(more, E.is_variant(key, ks[kind[1]], n)))) == text(val)]
            if not c.ob(rule, 'by name: the kind of shape is kept', len(kmu) == 1, '%d' % len(kmu)):
                continue
            kv = kmu[0][0]
            base = E.AND(more, E.is_variant(key, ks[sk], n))
            rd = [x for x in reads(r, 'value') if E.AND(x.guard, base) != FALSE]
        sh = r.eng.field(d, 'shape')
        if how == 'visit_map':
            sh = [nx for _, (i, s, nx) in l.mus.items() if text(s) == text(sh)][0]
        for vi, (vn, sn) in SHAPES.items():
            g = E.AND(base, E.is_variant(kv, vi, 5))
            hit = [x for x in rd if E.AND(x.guard, g) != FALSE]
            c.ob(rule, '%s: kind %s is read as a %s' % (how, vn, sn), len(hit) == 1 and P.adt_of(hit[0].info['ty']) == adt_named(P, sn), '%s' % [P.types[x.info['ty']]['s'] for x in hit])
            v = E.constrain(sh, g)
            p = payload(v) if is_term(v) else None
            if c.ob(rule, '%s: the shape read becomes the shape of the fixture (%s)' % (how, vn), p is not None and p[0] == 'agg' and p[2] == 'Some', text(v)[:80]):
                o = r.value(p[3][0][1], (), mem=l.e.info['back_mem'] if how == 'visit_map' else None)
                c.ob(rule, '%s: the shape of the fixture is the one read (%s)' % (how, vn), text(o) == text(val), text(o)[:100])


def names_in_order(ws):
    out = []
    for pos, key, *_ in sorted(ws, key=lambda x: x[0]):
        if key not in out:
            out.append(key)
    return out


def by_name(c, rule, r, l, how, fld, got, ks, n, name, more, key, val):
    hit = [(i, s, nx) for _, (i, s, nx) in l.mus.items() if text(s) == text(got)]
    if not c.ob(rule, '%s: %s is filled while reading by name' % (how, fld), len(hit) == 1 and name in ks, text(got)[:80]):
        return
    i, s, nx = hit[0]
    for k_ in range(n):
        g = E.AND(more, E.is_variant(key, k_, n))
        x = E.constrain(nx, g)
        if k_ == ks[name]:
            c.ob(rule, '%s: %s takes the value saved under its name' % (how, fld), raw_eq(r, x, val), text(x)[:100])
        elif x != E.constrain(s, g):
            c.ob(rule, '%s: %s does not take the value saved under another name' % (how, fld), False, text(x)[:100])



def map_loop(c, rule, P, what, r, ws):
    """by-name reading: loop, key numbers, number of keys, more, key, val."""
    ks, n = keys(c, rule, P, what, r, names_in_order(ws))
    l = theloop(c, rule, what, r)
    if l is None:
        return None
    at = [s for key, (i, s, nx) in l.mus.items() if key[1] == ('#n',)][0]
    more = E.boolsym(E.app('more', at))
    c.ob(rule, what + ': reading by name ends when the keys end', all(E.AND(x, more) == FALSE for x in l.exits), '')
    key = E.app('key', at)
    under = {k_: E.AND(more, E.is_variant(key, d, n)) for k_, d in ks.items()}
    return l, under, E.app('val', E.add(at, E.const(1)))


def at_ptr(r, x, v):
    """contents behind a reference when the call was made."""
    return text(r.value(v, (), mem=x.mem))


def exactly(x, g):
    return E.AND(x.guard, g) == g and E.AND(x.guard, E.NOT(g)) == FALSE


def one_call(c, rule, what, r, name, g):
    cs = [x for x in reads(r, name) if E.AND(x.guard, g) != FALSE]
    return cs[0] if c.ob(rule, what, len(cs) == 1 and exactly(cs[0], g), '%d calls, %s' % (len(cs), [E.show(x.guard, 4) for x in cs])) else None


def kept(l, ref, g):
    """value carried by the loop that a by-name reader refers to, after an iteration in case g; ref is &<mu>.Some.0."""
    for _, (i, s, nx) in l.mus.items():
        if nx is not None and text(ref) in ('&%s.d.Some.0' % text(s), '%s.d.Some.0' % text(s)):
            return E.constrain(nx, g)
    return None


def unkept(c, rule, what, l, ref, gs):
    """the carried value is not replaced in the other cases."""
    for _, (i, s, nx) in l.mus.items():
        if nx is not None and text(ref) in ('&%s.d.Some.0' % text(s), '%s.d.Some.0' % text(s)):
            for g in gs:
                c.ob(rule, what, text(E.constrain(nx, g)) == text(E.constrain(s, g)), text(nx)[:100])


def body(c, P):
    rule = 'body'
    badt = adt_named(P, 'B2body')
    w = run(c, P, writer(P, badt), names=[SELF, 'sink'])
    ws = fieldlist(c, rule, 'B2body', w)
    d = run(c, P, getdef_fn(P), names=[SELF])
    if not c.ob(rule, 'a body is saved as its definition and its fixtures', len(ws) == 2 and text(ws[0][2]) == text(d.ret) and text(ws[1][2]) == 'self.m_fixture_list', '%s' % [text(x[2])[:80] for x in ws]):
        return
    (_, dn, _, _, dt), (_, fn, _, _, _) = ws
    fns = visitor_of(c, P, adt_named(P, 'B2bodyDefinitionVisitorContext'))
    for how, f in fns.items():
        r = run(c, P, f, hooks=MADE, names=[SELF, 'src'])
        if how == 'visit_seq':
            g0 = g1 = TRUE
            val = E.app('elem', E.const(0))
            rd = reads(r, 'read')
            c.ob(rule, 'in order: definition, then fixtures', [isconst(x.info['at']) for x in rd] == [0, 1] and all(x.guard == TRUE for x in rd), '%s' % [text(x.info['at']) for x in rd])
            rd = {dn: rd[:1], fn: rd[1:]}
        else:
            m = map_loop(c, rule, P, 'body', r, ws)
            if m is None:
                continue
            l, under, val = m
            g0, g1 = under.get(dn, FALSE), under.get(fn, FALSE)
            rd = {n: [x for x in reads(r, 'value') if E.AND(x.guard, under.get(n, FALSE)) != FALSE] for n in (dn, fn)}
            c.ob(rule, 'by name: one value is taken per name', all(len(v) == 1 and exactly(v[0], under[n]) for n, v in rd.items()), '%s' % {n: len(v) for n, v in rd.items()})
        x = one_call(c, rule, how + ': one body is created from the definition', r, 'create_body', g0)
        if x is None or not all(rd.values()):
            continue
        c.ob(rule, how + ': in the world being loaded', own(x.info['args'][0], 'm_world'), text(x.info['args'][0]))
        c.ob(rule, how + ': from the saved definition', text(x.info['args'][1]) == text(val) and P.adt_of(rd[dn][0].info['ty']) == adt_named(P, 'B2bodyDef'), text(x.info['args'][1])[:100])
        y = rd[fn][0]
        sf = seed_fields(y).get('body') if y.info['seed'] is not None else None
        c.ob(rule, how + ': the fixtures are read as fixtures', sf is not None and seed_adt(P, y) == adt_named(P, 'B2fixtureListVisitorContext'), '')
        if sf is None:
            continue
        if how == 'visit_seq':
            c.ob(rule, how + ': the fixtures are put on the new body', text(sf) == '&newbody' and order(r, x, y), text(sf))
        else:
            v = kept(l, sf, g0)
            c.ob(rule, how + ': the fixtures are put on the new body', v is not None and text(v) in ('Option::Some{0:newbody}', 'Option::Some{0:&newbody}'), '%s via %s' % (text(v)[:80] if v is not None else None, text(sf)))
            unkept(c, rule, how + ': and on no other', l, sf, [g1])


def order(r, a, b):
    es = [x for x in r.effects]
    return es.index(a) < es.index(b)


def getdef_fn(P):
    return one('definition of a body', [f for f in P.fns.values() if f['name'] == 'get_def' and f['argc'] == 1 and P.adt_of(f['locals'][0][0]) == adt_named(P, 'B2bodyDef')])


JKINDS = {'Distance': 1, 'Friction': 2, 'Gear': 3, 'Motor': 4, 'Mouse': 5, 'Prismatic': 6, 'Pulley': 7, 'Revolute': 8, 'Weld': 9, 'Wheel': 10}


def joint(c, P):
    rule = 'joint'
    tadt = adt_named(P, 'B2jointType')
    kinds = {v['n'][1:-5]: i for i, v in enumerate(P.adts[tadt]['v']) if v['n'] != 'EUnknownJoint'}
    n = len(P.adts[tadt]['v'])
    # one saved entry is its kind followed by its definition
    f = one('joint entry writer', [f for f in P.fns.values() if f['name'] == 'serialize' and f['argc'] == 2 and P.adt_of(P.pointee(f['locals'][1][0])) == adt_named(P, 'JointWithType')])
    w = run(c, P, f, names=[SELF, 'sink'])
    ws = fieldlist(c, rule, 'joint entry', w)
    if not c.ob(rule, 'an entry is a kind followed by a definition', [text(x[2]) for x in ws] == ['self.jtype', 'self.joint_def'], '%s' % [text(x[2]) for x in ws]):
        return
    # the list of entries
    f = one('joint list writer', [f for f in P.fns.values() if f['name'] == 'serialize' and f['argc'] == 2 and P.adt_of(P.pointee(f['locals'][1][0])) == adt_named(P, 'B2jointsArrayContext')])
    w = run(c, P, f, names=[SELF, 'sink'])
    l = theloop(c, rule, 'joint list', w)
    if l is not None:
        els = [x for x in l.sub if x.kind == 'call' and x.name == 'element']
        ct = W.counted(c, rule, 'joint list: every joint is visited', l, S(w.value(sym(SELF).n, ('m_joints_to_process', 'len'))))
        dv = [x for x in l.sub if x.kind == 'call' and 'as_derived' in str(x.name)]
        b = announced(w)
        c.ob(rule, 'the announced number of joints is the number visited', len(b) == 1 and text(b[0][1]).endswith('self.m_joints_to_process.len}'), '%s' % [text(x[1]) for x in b])
        if ct and c.ob(rule, 'each joint is looked at once', len(dv) == 1, '%d' % len(dv)):
            ix, live = ct
            jv = dv[0]
            c.ob(rule, 'the joint looked at is the one visited', text(jv.args[0]) == '&self.m_joints_to_process.[%s]' % text(ix.n), text(jv.args[0]))
            dadt = adt_named(P, 'JointAsDerived')
            for i, v in enumerate(P.adts[dadt]['v']):
                k_ = v['n'][1:-5]
                g = E.AND(live.n, E.is_variant(jv.ret, i, len(P.adts[dadt]['v'])))
                hit = [x for x in els if E.AND(x.guard, g) != FALSE]
                if k_ == 'Mouse':
                    c.ob(rule, 'mouse joints are left out', not hit, '%d' % len(hit))
                    continue
                if not c.ob(rule, 'a %s joint is written once' % k_, len(hit) == 1 and E.AND(hit[0].guard, g) == g, '%d' % len(hit)):
                    continue
                o = Obj(jv.ret).at(('d', v['n']), '0')
                val = hit[0].info['value']
                gd = getdef(c, P, adt_named(P, jname(k_)), adt_named(P, jname(k_)[:-3]))
                e = w.eng
                got = text(e.field(val, 'joint_def'))
                c.ob(rule, 'a %s joint is written as its definition' % k_, got == text(gd.ret).replace('self', text(o.n)) and P_def(P, hit[0]) == jname(k_), got[:150])
                c.ob(rule, 'a %s joint is announced as one' % k_, text(e.field(val, 'jtype')) == text(o.n) + '.base.m_type', text(e.field(val, 'jtype')))
    # each kind of joint presents itself as what it is
    for k_ in JKINDS:
        ja = adt_named(P, jname(k_)[:-3])
        f = one('as_derived of ' + k_, [f for f in P.fns.values() if f['name'] == 'as_derived' and f['argc'] == 1 and P.adt_of(P.pointee(f['locals'][1][0])) == ja])
        s = text(run(c, P, f, names=[SELF]).ret)
        c.ob(rule, 'a %s joint presents itself as one' % k_, s == 'JointAsDerived::E%sJoint{0:&self}' % k_, s)
        ds = [f for f in P.fns.values() if f['name'] == 'default' and P.adt_of(f['locals'][0][0]) == adt_named(P, jname(k_))]
        r = run(c, P, one('default ' + k_, ds))
        t = r.eng.field(r.eng.field(r.ret, 'base'), 'jtype')
        c.ob(rule, 'a %s joint definition has its kind' % k_, text(t).startswith('B2jointType::E%sJoint' % k_), text(t))
    # reading an entry
    fns = visitor_of(c, P, adt_named(P, 'B2jointDefinitionVisitorContext'))
    for how, f in fns.items():
        r = run(c, P, f, hooks=MADE, names=[SELF, 'src'])
        if how == 'visit_seq':
            kv, base, val, rd = E.app('elem', E.const(0)), TRUE, E.app('elem', E.const(1)), reads(r, 'read')
            c.ob(rule, how + ': the kind is read first', isconst(rd[0].info['at']) == 0 and rd[0].guard == TRUE and P.adt_of(rd[0].info['ty']) == tadt and all(isconst(x.info['at']) == 1 for x in rd[1:]), '')
            rd = rd[1:]
        else:
            m = map_loop(c, rule, P, 'joint entry', r, ws)
            if m is None:
                continue
            l, under, val = m
            base = under.get(ws[1][1], FALSE)
            g0 = under.get(ws[0][1], FALSE)
            kmu = [(s, nx) for _, (i, s, nx) in l.mus.items() if nx is not None and text(E.constrain(nx, g0)) == 'Option::Some{0:%s}' % text(val)]
            if not c.ob(rule, how + ': the kind is kept', len(kmu) == 1 and text(E.constrain(kmu[0][1], base)) == text(E.constrain(kmu[0][0], base)), '%d' % len(kmu)):
                continue
            kv = Obj(kmu[0][0]).at(('d', 'Some'), '0').n
            rd = [x for x in reads(r, 'value') if E.AND(x.guard, base) != FALSE]
        for k_, kn in kinds.items():
            if k_ == 'Mouse':
                continue
            g = E.AND(base, E.is_variant(kv, kn, n))
            hit = [x for x in rd if E.AND(x.guard, g) != FALSE]
            if not c.ob(rule, '%s: a %s entry is read once, as a %s joint definition' % (how, k_, k_), len(hit) == 1 and P.adt_of(hit[0].info['ty']) == adt_named(P, jname(k_)), '%s' % [P.types[x.info['ty']]['s'] for x in hit]):
                continue
            sf = seed_fields(hit[0]) if hit[0].info['seed'] is not None else {}
            for t in ('m_body_array',) + (('m_all_joints',) if k_ == 'Gear' else ()):
                c.ob(rule, '%s: references in a %s entry are looked up in the tables of the world being loaded (%s)' % (how, k_, t), t in sf and own(sf[t], t), '%s' % {a: text(v) for a, v in sf.items()})
            cs = [x for x in reads(r, 'create_joint') if E.AND(x.guard, g) != FALSE]
            if c.ob(rule, '%s: a %s entry creates one joint' % (how, k_), len(cs) == 1 and E.AND(cs[0].guard, g) == g, '%d' % len(cs)):
                wv, dv = cs[0].info['args']
                c.ob(rule, '%s: a %s joint is created in the world being loaded' % (how, k_), own(wv, 'm_world'), text(wv))
                c.ob(rule, '%s: a %s joint is created from the definition read' % (how, k_), text(dv) == 'B2JointDefEnum::%sJoint{0:%s}' % (k_, text(val)), text(dv)[:100])


def P_def(P, x):
    t = P.types[x.info['ty']]
    while t['k'] == 'ref':
        t = P.types[t['t']]
    import re
    return re.findall(r'(B2\w+JointDef)\b', t['s'])[-1] if 'JointDef' in t['s'] else None


def world(c, P):
    fixture(c, P, visitor_of(c, P, adt_named(P, 'B2fixtureVisitorContext')))
    for what, ctx, carry, elem in (('fixture list', 'B2fixtureListVisitorContext', ['body'], 'B2fixtureVisitorContext'),
                                   ('body list', 'B2bodyListContext', ['m_world'], 'B2bodyDefinitionVisitorContext'),
                                   ('joint list', 'B2jointListContext', ['m_world', 'm_body_array', 'm_all_joints'], 'B2jointDefinitionVisitorContext')):
        a = listing(c, P, what, visitor_of(c, P, adt_named(P, ctx)), carry)
        c.ob('lists', what + ': each element is read by its own reader', a == adt_named(P, elem), str(a))
    body(c, P)
    joint(c, P)
    polygon(c, P)
    world_save(c, P)
    world_load(c, P)


def world_save(c, P):
    rule = 'world'
    w = run(c, P, writer(P, adt_named(P, 'B2world')), names=[SELF, 'sink'])
    ws = fieldlist(c, rule, 'B2world', w)
    o = sym(SELF)
    if not c.ob(rule, 'gravity, bodies, joints and gear joints are saved', len(ws) == 4 and text(ws[0][2]) == 'self.m_gravity' and text(ws[1][2]) == 'self.m_body_list', '%s' % [text(x[2])[:60] for x in ws]):
        return
    L3 = loops(w)
    nb = [l for l in L3 if any(i == o.at('m_body_list', 'head').n for i, s, n in l.mus.values())]
    sp = [l for l in L3 if any(i == o.at('m_joint_list', 'head').n for i, s, n in l.mus.values())]
    nj = [l for l in L3 if l not in nb and l not in sp]
    if not c.ob(rule, 'one numbering of the bodies, one split of the joints, one numbering of the joints', (len(nb), len(sp), len(nj)) == (1, 1, 1), '%s' % [(len(nb), len(sp), len(nj))]):
        return
    fs = [x for x in w.effects if x.kind == 'call' and x.name == 'field']
    es = w.effects
    # bodies get their position, before any joint is written
    sc = walk(c, rule, 'numbering of bodies', nb[0], o.at('m_body_list', 'head'))
    if sc:
        cur, live = sc
        cnt = [(i, s, n) for i, s, n in nb[0].mus.values() if E.isnum(s) and i == E.const(0) and n is not None and E.constrain(n, live.n) == E.constrain(E.add(s, E.const(1)), live.n)]
        if c.ob(rule, 'numbering of bodies counts them', len(cnt) >= 1, '%d' % len(cnt)):
            numbered(c, rule, 'body', nb[0], cur.at('m_island_index'), [x[1] for x in cnt], live)
    c.ob(rule, 'bodies are numbered before joints are written', es.index(nb[0].e) < es.index(fs[2]), '')
    # the split
    sc = walk(c, rule, 'split of the joints', sp[0], o.at('m_joint_list', 'head'))
    if sc:
        cur, live = sc
        ps = [x for x in sp[0].sub if x.kind == 'push']
        n = len(P.adts[adt_named(P, 'B2jointType')]['v'])
        ty = cur.at('base', 'm_type')
        lists = [list_place(w, sp[0], ws[i][2]) for i in (2, 3)]
        for k_, kn in JKINDS.items():
            g = (live & ty.is_(kn, n)).n
            hit = [x for x in ps if E.AND(x.guard, g) != FALSE]
            if k_ == 'Mouse':
                c.ob(rule, 'mouse joints take no place', not hit, '%d' % len(hit))
                continue
            want = lists[k_ == 'Gear'][0]
            if c.ob(rule, 'a %s joint takes one place' % k_, len(hit) == 1 and E.AND(hit[0].guard, g) == g, '%d' % len(hit)):
                x = hit[0]
                c.ob(rule, 'a %s joint is put into the right list' % k_, want is not None and text(x.args[0]) == want, '%s, list is %s' % (text(x.args[0]), want))
                c.ob(rule, 'the joint put there is the one visited (%s)' % k_, text(x.args[1]) in ('&' + text(cur.n), text(cur.n)), text(x.args[1]))
        for i in (2, 3):
            a = lists[i - 2][1]
            c.ob(rule, 'list %d starts empty' % i, a is not None and isconst(w.eng.field(a, 'len')) == 0, a is not None and text(a)[:60])
    # joints get their position in the first list, before gear joints (which refer to them) are written
    v = w.eng.field(ws[2][2], 'm_joints_to_process')
    lenv = w.eng.field(v, 'len')
    ct = W.counted(c, rule, 'numbering of joints', nj[0], S(lenv))
    if ct:
        ix, live = ct
        numbered(c, rule, 'joint', nj[0], None, [ix.n], live, prefix='%s.[%s]' % (text(v), text(ix.n)), suffix='.base.m_index')
    c.ob(rule, 'joints are numbered before gear joints are written', es.index(sp[0].e) < es.index(nj[0].e) < es.index(fs[3]), '')


def list_place(w, l, v):
    """where the vector handed to the writer was built up by the loop: (location, initial value)."""
    v = w.eng.field(v, 'm_joints_to_process')
    hit = [('&' + E.showloc(*k), i) for k, (i, s, nx) in l.mus.items() if s == v or text(s) == text(v)]
    return hit[0] if len(hit) == 1 else (None, None)


def walk(c, rule, what, l, head):
    cur = [(s, nx) for _, (i, s, nx) in l.mus.items() if i == head.n]
    if not c.ob(rule, what + ': starts at the first element', len(cur) == 1, '%d' % len(cur)):
        return None
    s, nx = cur[0]
    o = Obj(s)
    live = ~o.is_(0, 2)
    c.ob(rule, what + ': ends with the list', all(E.AND(x, live.n) == FALSE for x in l.exits), '%s' % [E.show(x, 4) for x in l.exits])
    c.ob(rule, what + ': follows the links', 'm_next' in text(E.constrain(nx, live.n)) or 'get_next' in text(nx), text(nx)[:120])
    return o.at(('d', 'Some'), '0'), live


def numbered(c, rule, what, l, place, counts, live, prefix=None, suffix=''):
    want = text(place.n) if place is not None else prefix + suffix
    w = [x for x in W.writes(l.sub) if E.showloc(*x.loc) == want or '&' + E.showloc(*x.loc) == want]
    if c.ob(rule, 'the position of each %s is recorded' % what, len(w) == 1 and E.AND(w[0].guard, live.n) == live.n, '%s of %s, want %s' % (len(w), [E.showloc(*x.loc) for x in W.writes(l.sub)], want)):
        c.ob(rule, 'the recorded position of a %s is its place in the sequence' % what, any(same(w[0].value, n) for n in counts), text(w[0].value))


def world_load(c, P):
    rule = 'world'
    w = run(c, P, writer(P, adt_named(P, 'B2world')), names=[SELF, 'sink'])
    ws = written(w)
    res = adt_named(P, 'B2worldDeserializeResult')
    f = one('world reader', [f for f in P.fns.values() if f['name'] == 'deserialize' and 'Deserialize' in str(f.get('trait')) and P.adt_of(f['self']) == res])
    r = run(c, P, f, hooks=ENTRY, names=['source'])
    vs = reads(r, 'visitor')
    if not c.ob(rule, 'reading a world is handed to one visitor', len(vs) == 1 and vs[0].guard == TRUE, '%d' % len(vs)):
        return
    c.ob(rule, 'the world handed out is the one read', text(E.constrain(r.ret, sym('loaded').is_(0, 2).n)) == 'Result::Ok{0:B2worldDeserializeResult{world:&loaded.d.Ok.0}}', text(r.ret)[:120])
    va = P.adt_of(vs[0].info['ty'])
    fns = {f['name']: f for f in P.fns.values() if f['name'] in ('visit_seq', 'visit_map') and P.adt_of(f['locals'][1][0]) == va}
    ctx = [None, adt_named(P, 'B2bodyListContext'), adt_named(P, 'B2jointListContext'), adt_named(P, 'B2jointListContext')]
    names = [x[1] for x in sorted(ws, key=lambda x: x[0])]
    bodies, joints = (L_REV % 'm_body_list', L_REV % 'm_joint_list')
    c.ob(rule, 'worlds are read in order and by name', sorted(fns) == ['visit_map', 'visit_seq'], '%s' % sorted(fns))
    for how, f in fns.items():
        r = run(c, P, f, hooks=dict(MADE, **LISTS), names=[SELF, 'src'])
        if how == 'visit_seq':
            gs = [TRUE] * 4
            rd = [[x for x in reads(r, 'read') if isconst(x.info['at']) == i] for i in range(4)]
            val = E.app('elem', E.const(0))
        else:
            m = map_loop(c, rule, P, 'world', r, ws)
            if m is None:
                continue
            l, under, val = m
            gs = [under.get(n, FALSE) for n in names]
            rd = [[x for x in reads(r, 'value') if E.AND(x.guard, g) != FALSE] for g in gs]
        if not c.ob(rule, how + ': each part is read once, by its own reader', all(len(x) == 1 and exactly(x[0], g) and seed_adt(P, x[0]) == a for x, g, a in zip(rd, gs, ctx)), '%s' % [(len(x), [seed_adt(P, y) for y in x]) for x in rd]):
            continue
        x = one_call(c, rule, how + ': one world is made', r, 'new_world', gs[0])
        if x is None:
            continue
        c.ob(rule, how + ': with the saved gravity', text(x.info['args'][0]) == text(val), text(x.info['args'][0]))
        if how == 'visit_seq':
            for i in (1, 2, 3):
                y = rd[i][0]
                sf = seed_fields(y)
                c.ob(rule, '%s: part %d goes to the new world' % (how, i), text(sf['m_world']) == '&world', text(sf['m_world']))
                if i > 1:
                    v = at_ptr(r, y, sf['m_body_array'])
                    c.ob(rule, '%s: bodies are looked up in saved order (part %d)' % (how, i), v == bodies % 'world', v)
                if i == 3:
                    v = at_ptr(r, y, sf['m_all_joints'])
                    c.ob(rule, how + ': joints are looked up in saved order', v == joints % 'world', v)
            tables_taken(c, rule, r, how, rd)
            c.ob(rule, how + ': the new world is the result', text(r.ret) == 'Result::Ok{0:&world}', text(r.ret))
        else:
            wref = None
            for i in (1, 2, 3):
                y = rd[i][0]
                sf = seed_fields(y)
                wref = sf['m_world']
                v = kept(l, wref, gs[0])
                c.ob(rule, '%s: part %d goes to the new world' % (how, i), v is not None and text(v) in ('Option::Some{0:&world}', 'Option::Some{0:world}'), '%s' % (v is not None and text(v)))
                unkept(c, rule, how + ': which is made once', l, wref, gs[1:])
                for tab, frm, tx in (('m_body_array', 1, bodies), ('m_all_joints', 2, joints)):
                    if i <= frm:
                        continue
                    v = kept(l, sf[tab], gs[frm])
                    p = payload(v) if v is not None and is_term(v) else None
                    if c.ob(rule, '%s: %s for part %d is made when the objects have been read' % (how, tab, i), p is not None and p[0] == 'agg' and p[2] == 'Some', '%s' % (v is not None and text(v)[:100])):
                        t = text(r.value(p[3][0][1], (), mem=l.e.info['back_mem']))
                        c.ob(rule, '%s: %s for part %d is in saved order' % (how, tab, i), t == tx % text(wref).lstrip('&'), t)
                    unkept(c, rule, how + ': %s is made once' % tab, l, sf[tab], [g for j, g in enumerate(gs) if j != frm])
            if wref is not None:
                c.ob(rule, how + ': the new world is the result', text(r.ret) == 'Result::Ok{0:%s}' % text(wref), text(r.ret))


L_REV = 'reversed(collected(list(&%%s.%s)))'


def tables_taken(c, rule, r, how, rd):
    es = r.effects
    taken = [x for x in es if x.kind == 'call' and x.name == 'listed']
    for fld, i in (('m_body_list', 1), ('m_joint_list', 2)):
        hit = [x for x in taken if text(x.info['value']).endswith('.' + fld)]
        c.ob(rule, '%s: %s is taken after it was read and before it is used' % (how, fld), len(hit) == 1 and es.index(rd[i][0]) < es.index(hit[0]) < es.index(rd[i + 1][0]), '%d' % len(hit))


# ------------------------------------------------------------------ polygons: their vertices are lists of varying length

def h_fill(base, reader_name):
    """a nested list reader fills an array behind a reference and counts what it stored."""
    def h(e, fr, st, args, tys, dt, line, fop):
        out = base(e, fr, st, args, tys, dt, line, fop)
        x = e.effects[-1]
        p = payload(args[1]) if is_term(args[1]) else None
        if p is not None and p[0] == 'agg':
            f = dict(p[3])
            if 'count' in f and 'array' in f:
                x.info['start'] = e.load(st, f['count'])
                e.store(st, f['count'], e.coerce_num(E.app('stored', x.info['at'])), fr, line)
                e.store(st, f['array'], E.app('points', x.info['at']), fr, line)
        return out
    return h


FILL = {k_: h_fill(L.HOOKS[k_], k_) for k_ in ('serde::de::SeqAccess::next_element_seed', 'serde::de::MapAccess::next_value_seed')}


def polygon(c, P):
    rule = 'polygon'
    adt = adt_named(P, 'B2polygonShape')
    w = run(c, P, writer(P, adt), names=[SELF, 'sink'])
    ws = fieldlist(c, rule, 'B2polygonShape', w)
    src = {}
    for pos, key, v, g, t in ws:
        s = text(v)
        if s.startswith('self.'):
            src[s[5:]] = (pos, key)
            continue
        # a part written through a wrapper of the shape
        while P.types[t]['k'] == 'ref':
            t = P.types[t]['t']
        m = P.types[t]['s']
        f = [f for f in P.fns.values() if f['name'] == 'serialize' and f['argc'] == 2 and 'polygon' in f['file'] and wrapper(P, f) == m.split('::')[-1].rstrip('>')]
        if not c.ob(rule, key + ' is written by one wrapper', len(f) == 1 and s.startswith('WithContext{context:&self'), '%d for %s, %s' % (len(f), m, s)):
            continue
        r = run(c, P, f[0], names=[SELF, 'sink'])
        l = theloop(c, rule, key, r)
        b = announced(r)
        if l is None:
            continue
        o = sym(SELF).at('context')
        ct = W.counted(c, rule, key + ': every point is written', l, S(r.eng.coerce_num(o.at('m_count').n)))
        els = [x for x in l.sub if x.kind == 'call' and x.name == 'element']
        c.ob(rule, key + ': the announced length is the number written', len(b) == 1 and text(b[0][1]) == 'Option::Some{0:%s}' % text(o.at('m_count').n), '%s' % [text(x[1]) for x in b])
        if ct and c.ob(rule, key + ': one point is written at a time', len(els) == 1 and exactly(els[0], ct[1].n), '%d' % len(els)):
            for fld in ('m_vertices', 'm_normals'):
                if text(els[0].info['value']) == '%s.[%s]' % (text(o.at(fld).n), text(ct[0].n)):
                    src[fld] = (pos, key)
    fs = fields(P, adt)
    for f in fs:
        c.ob(rule, 'polygon: %s is saved' % f, f in src, '%s' % sorted(src))
    if not all(f in src for f in fs):
        return
    # the array reader appends and counts
    fns = visitor_of(c, P, adt_named(P, 'VecArray'))
    r = run(c, P, fns['visit_seq'], listing=True, names=[SELF, 'seq'])
    l = theloop(c, rule, 'points', r)
    if l is not None:
        o = sym(SELF).at('0')
        cnt = [(i, s, nx) for k_, (i, s, nx) in l.mus.items() if text(i) == text(o.at('count').n)]
        rd = reads(r, 'read')
        if c.ob(rule, 'points are counted', len(cnt) == 1 and len(rd) == 1, '%d' % len(cnt)):
            i, s, nx = cnt[0]
            at = rd[0].info['at']
            more = E.boolsym(E.app('more', at))
            fine = E.AND(more, l.e.info['back_pc'])
            c.ob(rule, 'points: all are read', all(E.AND(x, fine) == FALSE for x in l.exits), '')
            c.ob(rule, 'points: each one counts', same(E.constrain(nx, fine), E.constrain(E.add(s, E.const(1)), fine)), text(nx)[:80])
            st = [x for x in W.writes(l.sub) if '.[' in E.showloc(*x.loc)]
            c.ob(rule, 'points: each one is put in the next place', len(st) == 1 and E.showloc(*st[0].loc) == '%s.[%s]' % (text(o.at('array').n), text(s)) and text(st[0].value) == text(E.app('elem', at)),
                 '%s' % [(E.showloc(*x.loc), text(x.value)) for x in st])
    # the shape readers
    for how in ('visit_seq', 'visit_map'):
        r = run(c, P, reader(P, adt, how), hooks=FILL)
        if how == 'visit_seq':
            v = okval(r.ret)
            if not c.ob(rule, 'in order: a polygon is the result', v is not None, text(r.ret)[:60]):
                continue
            rd = reads(r, 'read')
            c.ob(rule, 'in order: as many values are read as were written', [isconst(x.info['at']) for x in rd] == list(range(len(ws))) and all(x.guard == TRUE for x in rd), '%d' % len(rd))
            for f in fs:
                got = r.eng.field(v, f)
                pos = src[f][0]
                if f in ('m_vertices', 'm_normals'):
                    c.ob(rule, 'in order: %s' % f, text(got) == text(E.app('points', E.const(pos))), text(got)[:80])
                elif f == 'm_count':
                    c.ob(rule, 'in order: the number of points', text(got) in [text(E.app(k_, E.const(src[x][0]))) for x, k_ in (('m_vertices', 'stored'), ('m_normals', 'stored'), ('m_count', 'elem'))], text(got)[:80])
                else:
                    c.ob(rule, 'in order: %s' % f, raw_eq(r, got, E.app('elem', E.const(pos))), text(got)[:80])
        else:
            m = map_loop(c, rule, P, 'polygon', r, ws)
            if m is None:
                continue
            l, under, val = m
            v = okval(r.ret)
            for f in fs:
                got = r.eng.field(v, f)
                hit = [(s, nx) for _, (i, s, nx) in l.mus.items() if text(s) == text(got)]
                if not c.ob(rule, 'by name: %s is filled' % f, len(hit) == 1, text(got)[:60]):
                    continue
                s, nx = hit[0]
                for n, g in under.items():
                    x = text(E.constrain(nx, g))
                    if n == src[f][1]:
                        ok_ = x in (text(val), text(val).replace('val(', 'points('))
                    elif f == 'm_count':
                        ok_ = x == text(val).replace('val(', 'stored(') if n in (src['m_vertices'][1], src['m_normals'][1]) else x == text(E.constrain(s, g))
                    else:
                        ok_ = x == text(E.constrain(s, g))
                    c.ob(rule, 'by name: %s under the name %s' % (f, n), ok_, x[:80])
        for x in reads(r, 'read') + reads(r, 'value'):
            if 'start' in (x.info or {}):
                z = E.constrain(x.info['start'], x.guard)
                c.ob(rule, how + ': points are stored from the first place', z == E.constrain(E.const(0), x.guard), text(z)[:80])


def wrapper(P, f):
    s = P.types[f['locals'][1][0]]
    while s['k'] == 'ref':
        s = P.types[s['t']]
    return s['s'].split('::')[-1].rstrip('>')
