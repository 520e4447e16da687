"""what the save and load code writes and reads, field by field (shared by the serialization check)."""
from .. import expr as E
from ..engine import Engine, Effect, UNIT, TRUE, payload, term, is_term, ite, BOTTOM
from ..models import m_try


def agg(name, var, **kv):
    return term(('agg', name, var, tuple(kv.items())))


def ok(v):
    return term(('agg', 'std::result::Result', 'Ok', (('0', v),)))


def some(v):
    return term(('agg', 'std::option::Option', 'Some', (('0', v),)))


def inner(e, t, depth):
    """type inside Result<Option<T>>: peel `depth` layers."""
    for _ in range(depth):
        t = e.P.types[e.P.peel(t)]['a'][0]
    return t


def cnt(e, st, ptr):
    return e.coerce_num(e.load(st, e.extend(ptr, '#n')))


def bump(e, fr, st, ptr, line):
    n = cnt(e, st, ptr)
    e.store(st, e.extend(ptr, '#n'), E.add(n, E.const(1)), fr, line)
    return n


def deref(e, st, v, t):
    """the value behind a chain of references."""
    while e.P.types[t]['k'] in ('ref', 'ptr'):
        t = e.P.types[t]['t']
        v = e.load(st, v, t)
    return v


def record(e, st, fr, line, name, **info):
    e.effects.append(Effect('call', st.pc, fr.path, line, name=name, args=[], ret=None, mem=dict(st.mem), argtys=[], info=info))


def h_begin(kind):
    def h(e, fr, st, args, tys, dt, line, fop):
        record(e, st, fr, line, 'begin', what=kind, size=args[-1], sizet=tys[-1])
        return ok(agg('#sink', None, **{'#n': E.const(0)}))
    return h


def h_field(e, fr, st, args, tys, dt, line, fop):
    n = bump(e, fr, st, args[0], line)
    record(e, st, fr, line, 'field', at=n, key=args[1], value=deref(e, st, args[2], tys[2]), ty=tys[2])
    return ok(UNIT)


def h_element(e, fr, st, args, tys, dt, line, fop):
    n = bump(e, fr, st, args[0], line)
    record(e, st, fr, line, 'element', at=n, value=deref(e, st, args[1], tys[1]), ty=tys[1])
    return ok(UNIT)


def h_end(e, fr, st, args, tys, dt, line, fop):
    record(e, st, fr, line, 'end')
    return ok(e.sym('end'))


def h_elem(seed):
    def h(e, fr, st, args, tys, dt, line, fop):
        n = bump(e, fr, st, args[0], line)
        t = inner(e, dt, 2)
        v = some(e.coerce(E.app('elem', n), t))
        record(e, st, fr, line, 'read', at=n, ty=t, seed=args[1] if seed else None, seedt=tys[1] if seed else None)
        # a list ends somewhere; a record has as many elements as were written
        return ok(ite(E.boolsym(E.app('more', n)), v, e.none()) if e.listing else v)
    return h


def h_key(e, fr, st, args, tys, dt, line, fop):
    n = bump(e, fr, st, args[0], line)
    c = E.boolsym(E.app('more', n))
    t = inner(e, dt, 2)
    e.keytype = e.P.adt_of(t)
    return ok(ite(c, some(e.coerce(E.app('key', n), t)), e.none()))


def h_val(seed):
    def h(e, fr, st, args, tys, dt, line, fop):
        n = cnt(e, st, args[0])
        t = inner(e, dt, 1)
        record(e, st, fr, line, 'value', at=n, ty=t, seed=args[1] if seed else None, seedt=tys[1] if seed else None)
        return ok(e.coerce(E.app('val', n), t))
    return h


def h_branch(e, fr, st, args, tys, dt, line, fop):
    return m_try(e, fr, st, args, tys, dt, line, None)


HOOKS = {
    'serde::Serializer::serialize_struct': h_begin('struct'),
    'serde::Serializer::serialize_seq': h_begin('seq'),
    'serde::ser::SerializeStruct::serialize_field': h_field,
    'serde::ser::SerializeSeq::serialize_element': h_element,
    'serde::ser::SerializeStruct::end': h_end,
    'serde::ser::SerializeSeq::end': h_end,
    'serde::de::SeqAccess::next_element': h_elem(False),
    'serde::de::SeqAccess::next_element_seed': h_elem(True),
    'serde::de::MapAccess::next_key': h_key,
    'serde::de::MapAccess::next_value': h_val(False),
    'serde::de::MapAccess::next_value_seed': h_val(True),
    'std::ops::Try::branch': h_branch,
}


def run(c, P, f, listing=False, hooks=None, names=None):
    """summary of one save or load function; elements and keys are numbered from 0."""
    e = Engine(P)
    e.listing, e.keytype = listing, None
    e.hooks.update(HOOKS)
    e.hooks.update(hooks or {})
    args = e.default_args(f, names)
    if f['name'].startswith('visit_'):
        args[1] = agg('#src', None, **{'#n': E.const(0)})
    r = e.analyse(f, args=args)
    c.saw(f['uid'], e.inlined)
    c.count('blocks', e.stats['blocks'])
    c.count('calls', e.stats['calls'])
    r.keytype = e.keytype
    return r


def strconst(n):
    p = payload(n)
    if p[0] == 'ptr':
        s = E.show(n)
        i, j = s.find('"'), s.rfind('"')
        if 0 <= i < j:
            return s[i + 1:j]
    return None


def isconst(n):
    if is_term(n) and payload(n)[0] == 'num' and E.pisconst(payload(n)[1]):
        return int(E.show(n))
    return None


def written(r):
    """[(position, key, value, guard, type)] of the fields a save function writes; None where not constant."""
    return [(isconst(x.info['at']), strconst(x.info['key']), x.info['value'], x.guard, x.info['ty']) for x, _ in r.flat(kinds=('call',)) if x.name == 'field']


def announced(r):
    b = [x for x, _ in r.flat(kinds=('call',)) if x.name == 'begin']
    return [(x.info['what'], x.info['size'], x.guard) for x in b]


def reads(r, name):
    return [x for x, _ in r.flat(kinds=('call',)) if x.name == name]
