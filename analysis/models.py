"""Transfer functions for the standard-library calls that occur in the crate (and the common
alternatives a refactoring would reach for)."""
from . import expr as E
from .expr import TRUE, FALSE, BOTTOM, AND, OR, NOT, ite, term, payload, is_term

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def deref_arg(e, st, a, t):
    """value behind a reference argument."""
    pt = e.P.pointee(t)
    return e.load(st, a, pt)


# ---- smart pointers and cells: all flattened to the object identity -------------
@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref', '<std::cell::Ref<\'_, T> as std::ops::Deref>::deref',
       '<std::cell::RefMut<\'_, T> as std::ops::Deref>::deref', '<std::cell::RefMut<\'_, T> as std::ops::DerefMut>::deref_mut',
       '<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::ops::Deref>::deref',
       '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref',
       '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut',
       '<std::rc::Rc<T, A> as std::clone::Clone>::clone', '<std::rc::Weak<T, A> as std::clone::Clone>::clone',
       'std::rc::Rc::<T, A>::downgrade', 'std::rc::Rc::<T, A>::as_ptr', 'std::rc::Weak::<T, A>::as_ptr',
       '<std::rc::Rc<T, A> as std::borrow::Borrow<T>>::borrow', 'std::cell::Ref::<\'b, T>::clone')
def m_ptr(e, fr, st, args, tys, dt, line, ga):
    inner = e.P.pointee(tys[0])
    v = e.load(st, args[0], inner)
    pt = e.P.pointee(inner) if inner is not None else None
    if pt is not None and is_term(v) and payload(v)[0] == 'ptr' and not payload(v)[2]:
        e.root_content(st, payload(v)[1], pt)
    return v


@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::as_ptr', 'std::cell::RefCell::<T>::get_mut')
def m_borrow(e, fr, st, args, tys, dt, line, ga):
    pt = e.P.pointee(tys[0])
    v = args[0]
    if pt is not None and is_term(v) and payload(v)[0] == 'ptr' and not payload(v)[2]:
        e.root_content(st, payload(v)[1], pt)
    return v


@model('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'std::cell::RefCell::<T>::into_inner', '<T as std::convert::From<T>>::from', '<T as std::convert::Into<U>>::into',
       'std::convert::identity', '<I as std::iter::IntoIterator>::into_iter', 'std::hint::black_box', '<T as std::borrow::ToOwned>::to_owned')
def m_id(e, fr, st, args, tys, dt, line, ga):
    return args[0]


@model('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new')
def m_alloc(e, fr, st, args, tys, dt, line, ga):
    e.nalloc += 1
    root = ('N', e.nalloc)
    st.mem[root] = args[0]
    pt = e.P.pointee(dt)
    if pt is not None:
        e.root_types[root] = pt
    return term(('ptr', root, ()))


@model('std::rc::Weak::<T, A>::upgrade', 'std::rc::Weak::<T>::upgrade')
def m_upgrade(e, fr, st, args, tys, dt, line, ga):
    v = deref_arg(e, st, args[0], tys[0])

    def f(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'ptr':
            if p[1] == ('NULL',):
                return e.none()
            if p[1][0] == 'N':
                return e.some(x)
            alive = E.boolsym(term(('app', 'alive', (x,))))
            return ite(alive, e.some(x), e.none())
        return e.some(x)
    return e._leafwise(v, f)


@model('<std::rc::Weak<T> as std::default::Default>::default', 'std::rc::Weak::<T>::new')
def m_weaknew(e, fr, st, args, tys, dt, line, ga):
    return term(('ptr', ('NULL',), ()))


@model('std::rc::Rc::<T, A>::ptr_eq', 'std::rc::Weak::<T, A>::ptr_eq')
def m_ptreq(e, fr, st, args, tys, dt, line, ga):
    a = deref_arg(e, st, args[0], tys[0])
    b = deref_arg(e, st, args[1], tys[1])
    return e.equal(a, b)


@model('std::ptr::eq', 'std::ptr::addr_eq')
def m_ptreq2(e, fr, st, args, tys, dt, line, ga):
    return e.equal(args[0], args[1])


@model('std::mem::drop', 'std::mem::forget')
def m_drop(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    return UNIT


@model('std::mem::swap')
def m_swap(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    pt = e.P.pointee(tys[0])
    a, b = e.load(st, args[0], pt), e.load(st, args[1], pt)
    e.store(st, args[0], b, fr, line)
    e.store(st, args[1], a, fr, line)
    return UNIT


@model('std::mem::replace')
def m_replace(e, fr, st, args, tys, dt, line, ga):
    pt = e.P.pointee(tys[0])
    a = e.load(st, args[0], pt)
    e.store(st, args[0], args[1], fr, line)
    return a


@model('std::mem::take')
def m_take(e, fr, st, args, tys, dt, line, ga):
    pt = e.P.pointee(tys[0])
    a = e.load(st, args[0], pt)
    d = default_of(e, fr, st, pt, line)
    if d is None:
        return NotImplemented
    e.store(st, args[0], d, fr, line)
    return a


@model('std::cell::Cell::<T>::get')
def m_cellget(e, fr, st, args, tys, dt, line, ga):
    return e.load(st, args[0], dt)


@model('std::cell::Cell::<T>::set')
def m_cellset(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    e.store(st, args[0], args[1], fr, line)
    return UNIT


# ---- Option --------------------------------------------------------------------
def opt_split(e, v):
    """(is_some condition, payload node) of an Option value."""
    def disc(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg':
            return TRUE if p[2] == 'Some' else FALSE
        return E.is_variant(x, 1, 2)

    def pay(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg':
            return p[3][0][1] if p[2] == 'Some' else BOTTOM
        if p[0] == 'upd':
            return e.field(e.field(x, ('d', 'Some')), '0')
        return term(('proj', term(('proj', x, ('d', 'Some'))), '0'))
    return e._leafwise(v, disc), e._leafwise(v, pay)


def opt_inner(e, t):
    d = e.P.types[e.P.peel(t)]
    return d['a'][0] if d['k'] == 'adt' and d.get('a') else None


@model('std::option::Option::<T>::unwrap', 'std::option::Option::<T>::expect')
def m_unwrap(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    e.panic(fr, st, NOT(c), 'unwrap on None', line)
    if v == BOTTOM:
        st.pc = FALSE
        return BOTTOM
    return e.coerce(v, dt)


@model('std::option::Option::<T>::unwrap_unchecked')
def m_unwrap_u(e, fr, st, args, tys, dt, line, ga):
    return e.coerce(opt_split(e, args[0])[1], dt)


@model('std::result::Result::<T, E>::unwrap', 'std::result::Result::<T, E>::expect')
def m_runwrap(e, fr, st, args, tys, dt, line, ga):
    def pay(x):
        p = payload(x)
        if p[0] == 'agg':
            return p[3][0][1] if p[2] == 'Ok' else BOTTOM
        return term(('proj', term(('proj', x, ('d', 'Ok'))), '0'))
    return e.coerce(e._leafwise(args[0], pay), dt)


@model('<T as std::convert::TryInto<U>>::try_into', '<T as std::convert::TryFrom<U>>::try_from')
def m_tryinto(e, fr, st, args, tys, dt, line, ga):
    return term(('agg', 'std::result::Result', 'Ok', (('0', args[0]),)))


@model('std::option::Option::<T>::is_some')
def m_issome(e, fr, st, args, tys, dt, line, ga):
    return opt_split(e, deref_arg(e, st, args[0], tys[0]))[0]


@model('std::option::Option::<T>::is_none')
def m_isnone(e, fr, st, args, tys, dt, line, ga):
    return NOT(opt_split(e, deref_arg(e, st, args[0], tys[0]))[0])


@model('<std::option::Option<T> as std::clone::Clone>::clone')
def m_optclone(e, fr, st, args, tys, dt, line, ga):
    return e.load(st, args[0], dt)


@model('std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<&mut T>::cloned', 'std::option::Option::<&mut T>::copied')
def m_cloned(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    it = opt_inner(e, dt)
    x = e.load(st, e.coerce(v, opt_inner(e, tys[0])), it) if v != BOTTOM else BOTTOM
    return ite(c, leaf_some(e, x), e.none())


def leaf_some(e, v):
    return e._leafwise(v, lambda x: e.some(x) if x != BOTTOM else BOTTOM)


@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_deref', 'std::option::Option::<T>::as_deref_mut')
def m_asref(e, fr, st, args, tys, dt, line, ga):
    v = deref_arg(e, st, args[0], tys[0])
    c, _ = opt_split(e, v)
    p = e.extend(e.extend(args[0], ('d', 'Some')), '0')
    return ite(c, leaf_some(e, p), e.none())


@model('std::option::Option::<T>::take')
def m_opttake(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0], dt)
    e.store(st, args[0], e.none(), fr, line)
    return v


@model('std::option::Option::<T>::replace')
def m_optreplace(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0], dt)
    e.store(st, args[0], leaf_some(e, args[1]), fr, line)
    return v


@model('std::option::Option::<T>::insert')
def m_optinsert(e, fr, st, args, tys, dt, line, ga):
    e.store(st, args[0], leaf_some(e, args[1]), fr, line)
    return e.extend(e.extend(args[0], ('d', 'Some')), '0')


@model('<std::option::Option<T> as std::default::Default>::default')
def m_optdefault(e, fr, st, args, tys, dt, line, ga):
    return e.none()


def guarded(e, st, c, thunk):
    """run thunk under path condition c; merges the state; returns its value (BOTTOM when infeasible)."""
    from .engine import State
    pc = AND(st.pc, c)
    if pc == FALSE:
        return BOTTOM
    if pc == st.pc:
        return thunk(st)
    s1 = st.copy()
    s1.pc = pc
    v = thunk(s1)
    s0 = st.copy()
    s0.pc = AND(st.pc, NOT(c))
    if s1.pc == FALSE:
        m = s0
    else:
        m = e.merge2(s1, s0)
    full = st.pc
    st.mem, st.assume, st.hv = m.mem, m.assume, m.hv
    st.pc = full
    return v


@model('std::option::Option::<T>::map')
def m_map(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    v = e.coerce(v, opt_inner(e, tys[0]))
    if c == FALSE:
        return e.none()
    r = guarded(e, st, c, lambda s: e.call_closure(fr, s, args[1], [v], opt_inner(e, dt), line))
    if r is None:
        return NotImplemented
    return ite(c, leaf_some(e, r), e.none())


@model('std::option::Option::<T>::and_then')
def m_andthen(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    v = e.coerce(v, opt_inner(e, tys[0]))
    if c == FALSE:
        return e.none()
    r = guarded(e, st, c, lambda s: e.call_closure(fr, s, args[1], [v], dt, line))
    if r is None:
        return NotImplemented
    return ite(c, r, e.none())


@model('std::option::Option::<T>::map_or')
def m_mapor(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    v = e.coerce(v, opt_inner(e, tys[0]))
    r = guarded(e, st, c, lambda s: e.call_closure(fr, s, args[2], [v], dt, line))
    if r is None:
        return NotImplemented
    return ite(c, r, args[1])


@model('std::option::Option::<T>::map_or_else')
def m_maporelse(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    v = e.coerce(v, opt_inner(e, tys[0]))
    r = guarded(e, st, c, lambda s: e.call_closure(fr, s, args[2], [v], dt, line))
    q = guarded(e, st, NOT(c), lambda s: e.call_closure(fr, s, args[1], [], dt, line))
    if r is None or q is None:
        return NotImplemented
    return ite(c, r, q)


@model('std::option::Option::<T>::is_some_and', 'std::option::Option::<T>::is_none_or')
def m_issomeand(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    v = e.coerce(v, opt_inner(e, tys[0]))
    r = guarded(e, st, c, lambda s: e.call_closure(fr, s, args[1], [v], dt, line))
    if r is None:
        return NotImplemented
    return AND(c, r)


@model('std::option::Option::<T>::unwrap_or')
def m_unwrapor(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    return ite(c, e.coerce(v, dt), args[1])


@model('std::option::Option::<T>::unwrap_or_else')
def m_unwraporelse(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    q = guarded(e, st, NOT(c), lambda s: e.call_closure(fr, s, args[1], [], dt, line))
    if q is None:
        return NotImplemented
    return ite(c, e.coerce(v, dt), q)


@model('std::option::Option::<T>::unwrap_or_default')
def m_unwrapordef(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    d = default_of(e, fr, st, dt, line)
    return ite(c, e.coerce(v, dt), d) if d is not None else NotImplemented


@model('std::option::Option::<T>::or')
def m_or(e, fr, st, args, tys, dt, line, ga):
    c, _ = opt_split(e, args[0])
    return ite(c, args[0], args[1])


@model('std::option::Option::<T>::ok_or_else', 'std::option::Option::<T>::ok_or')
def m_okor(e, fr, st, args, tys, dt, line, ga):
    c, v = opt_split(e, args[0])
    ok = e._leafwise(e.coerce(v, opt_inner(e, tys[0])), lambda x: term(('agg', 'std::result::Result', 'Ok', (('0', x),))) if x != BOTTOM else BOTTOM)
    err = term(('agg', 'std::result::Result', 'Err', (('0', e.sym('err')),)))
    return ite(c, ok, err)


@model('<std::result::Result<T, E> as std::ops::Try>::branch')
def m_try(e, fr, st, args, tys, dt, line, ga):
    def f(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg':
            if p[2] == 'Ok':
                return term(('agg', 'std::ops::ControlFlow', 'Continue', p[3]))
            return term(('agg', 'std::ops::ControlFlow', 'Break', (('0', x),)))
        ok = term(('proj', term(('proj', x, ('d', 'Ok'))), '0'))
        okt = e.P.types[e.P.peel(tys[0])]['a'][0]
        c = E.is_variant(x, 0, 2)
        return ite(c, term(('agg', 'std::ops::ControlFlow', 'Continue', (('0', e.coerce(ok, okt)),))), term(('agg', 'std::ops::ControlFlow', 'Break', (('0', x),))))
    return e._leafwise(args[0], f)


@model('<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<std::convert::Infallible, E>>>::from_residual')
def m_fromres(e, fr, st, args, tys, dt, line, ga):
    return term(('agg', 'std::result::Result', 'Err', (('0', e.sym('err')),)))


# ---- Default / Clone / PartialEq of primitives ----------------------------------
def default_of(e, fr, st, t, line=0):
    P = e.P
    t = P.peel(t)
    d = P.types[t]
    if d['k'] == 'prim':
        return FALSE if d['s'] == 'bool' else E.ZERO
    if d['k'] == 'adt':
        if d['p'] == 'std::option::Option':
            return e.none()
        if d['p'] == 'std::vec::Vec':
            return EMPTY_VEC
        if d['p'] == 'std::rc::Weak':
            return term(('ptr', ('NULL',), ()))
        for im in P.impls:
            if im.get('trait') == 'std::default::Default' and P.types[im['self']].get('p') == d['p']:
                uid = [u for n, u, _ in im['items'] if n == 'default'][0]
                f = P.fns[uid]
                out = {}
                e._unify(im['self'], t, out)
                return e.inline_call(fr, st, f, [], out)
        if d['p'] in ('std::rc::Rc', 'std::boxed::Box'):
            v = default_of(e, fr, st, d['a'][0], line)
            if v is None:
                return None
            return m_alloc(e, fr, st, [v], [d['a'][0]], t, line, [])
    if d['k'] == 'array':
        try:
            n = int(d['n'])
        except (TypeError, ValueError, KeyError):
            return None
        el = default_of(e, fr, st, d['t'], line)
        if el is None:
            return None
        return term(('agg', 'vec', None, tuple((('i', E.const(i)), el) for i in range(n))))
    if d['k'] == 'tuple':
        vs = [default_of(e, fr, st, x, line) for x in d['a']]
        return None if None in vs else term(('agg', '()', None, tuple((str(i), v) for i, v in enumerate(vs))))
    return None


EMPTY_VEC = term(('agg', 'vec', None, ()))


def m_default(e, fr, st, args, tys, dt, line, ga):
    v = default_of(e, fr, st, dt, line)
    return v if v is not None else NotImplemented


for _p in ('f32', 'i32', 'usize', 'u8', 'u16', 'u32', 'u64', 'i64', 'i16', 'i8', 'f64', 'bool'):
    MODELS['<%s as std::default::Default>::default' % _p] = m_default
MODELS['std::default::Default::default'] = m_default
for _n in range(40, 100):
    MODELS['std::array::<impl std::default::Default for [T; core::::array::{impl#%d}::{constant#0}]>::default' % _n] = m_default
MODELS['<std::rc::Rc<T> as std::default::Default>::default'] = m_default
MODELS['<std::boxed::Box<T> as std::default::Default>::default'] = m_default
MODELS['<std::cell::RefCell<T> as std::default::Default>::default'] = m_default


@model('<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def m_vecnew(e, fr, st, args, tys, dt, line, ga):
    return EMPTY_VEC


def m_clone(e, fr, st, args, tys, dt, line, ga):
    return e.load(st, args[0], dt)


for _p in ('f32', 'i32', 'usize', 'u8', 'u16', 'u32', 'u64', 'i64', 'i16', 'i8', 'f64', 'bool', 'char'):
    MODELS['std::clone::impls::<impl std::clone::Clone for %s>::clone' % _p] = m_clone
for _n in ('std::clone::Clone::clone', '<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::array::<impl std::clone::Clone for [T; N]>::clone',
           'std::clone::impls::<impl std::clone::Clone for &T>::clone',
           'std::slice::<impl [T]>::to_owned', '<std::option::Option<T> as std::clone::Clone>::clone'):
    MODELS[_n] = m_clone


def struct_eq(e, fr, st, a, b, t, line):
    """equality of two values of type t; None when not modelled."""
    P = e.P
    t = P.peel(t)
    d = P.types[t]
    if d['k'] == 'prim' or d['k'] == 'ptr':
        return e.equal(a, b, d)
    if d['k'] == 'ref':
        return struct_eq(e, fr, st, e.load(st, a, d['t']), e.load(st, b, d['t']), d['t'], line)
    if d['k'] == 'adt':
        if d['p'] in P.bitflag_adts:
            return E.boolsym(term(('app', 'flags_eq', tuple(sorted((a, b)))))) if a != b else TRUE
        if d['p'] in P.adts:
            for im in P.impls:
                if im.get('trait') == 'std::cmp::PartialEq' and P.types[im['self']].get('p') == d['p']:
                    uid = [u for n, u, _ in im['items'] if n == 'eq'][0]
                    pa, pb = spill(e, st, a, t), spill(e, st, b, t)
                    out = {}
                    e._unify(im['self'], t, out)
                    return e.inline_call(fr, st, P.fns[uid], [pa, pb], out)
        if d['p'] == 'std::option::Option':
            ca, va = opt_split(e, a)
            cb, vb = opt_split(e, b)
            it = d['a'][0]
            if va == BOTTOM or vb == BOTTOM:
                return NOT(E.XOR(ca, cb)) if AND(ca, cb) == FALSE else None
            q = struct_eq(e, fr, st, e.coerce(va, it), e.coerce(vb, it), it, line)
            if q is None:
                return None
            return OR(AND(NOT(ca), NOT(cb)), AND(AND(ca, cb), q))
    if d['k'] == 'tuple':
        r = TRUE
        for i, x in enumerate(d['a']):
            q = struct_eq(e, fr, st, e.coerce(e.field(a, str(i)), x), e.coerce(e.field(b, str(i)), x), x, line)
            if q is None:
                return None
            r = AND(r, q)
        return r
    return None


def spill(e, st, v, t):
    e.nalloc += 1
    root = ('N', 'tmp', e.nalloc)
    st.mem[root] = v
    e.root_types[root] = t
    return term(('ptr', root, ()))


@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq', 'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::ne',
       '<std::option::Option<T> as std::cmp::PartialEq>::eq')
def m_eq(e, fr, st, args, tys, dt, line, ga):
    raise AssertionError


def _mk_eq(neg):
    def f(e, fr, st, args, tys, dt, line, ga):
        pt = e.P.pointee(tys[0])
        r = struct_eq(e, fr, st, e.load(st, args[0], pt), e.load(st, args[1], pt), pt, line)
        if r is None:
            return NotImplemented
        return NOT(r) if neg else r
    return f


for _n in ('std::cmp::PartialEq', 'std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>', '<std::option::Option<T> as std::cmp::PartialEq>'):
    MODELS[_n + '::eq'] = _mk_eq(False)
    MODELS[_n + '::ne'] = _mk_eq(True)
for _p in ('f32', 'i32', 'usize', 'u8', 'u16', 'u32', 'u64', 'i64', 'i16', 'i8', 'f64', 'bool'):
    MODELS['std::cmp::impls::<impl std::cmp::PartialEq for %s>::eq' % _p] = _mk_eq(False)
    MODELS['std::cmp::impls::<impl std::cmp::PartialEq for %s>::ne' % _p] = _mk_eq(True)


def _mk_cmp(op):
    def f(e, fr, st, args, tys, dt, line, ga):
        pt = e.P.pointee(tys[0])
        d = e.P.types[e.P.peel(pt)]
        a, b = e.load(st, args[0], pt), e.load(st, args[1], pt)
        if d['k'] == 'ref':
            a, b = e.load(st, a, d['t']), e.load(st, b, d['t'])
            d = e.P.types[e.P.peel(d['t'])]
        if d['k'] == 'adt' and d['p'] in e.P.adts and e.P.adts[d['p']]['enum']:
            return NotImplemented
        return op(e.coerce_num(a), e.coerce_num(b))
    return f


for _o, _f in (('lt', E.lt), ('le', E.le), ('gt', E.gt), ('ge', E.ge)):
    MODELS['std::cmp::PartialOrd::' + _o] = _mk_cmp(_f)
    MODELS['std::cmp::impls::<impl std::cmp::PartialOrd<&B> for &A>::' + _o] = _mk_cmp(_f)
    for _p in ('f32', 'i32', 'usize', 'u8', 'u16', 'u32', 'u64', 'i64', 'f64'):
        MODELS['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s' % (_p, _o)] = _mk_cmp(_f)


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discr(e, fr, st, args, tys, dt, line, ga):
    pt = e.P.pointee(tys[0])
    return e.discr_of(e.load(st, args[0], pt), pt)


# ---- numbers ---------------------------------------------------------------------
def _fn(name, arity=1):
    def f(e, fr, st, args, tys, dt, line, ga):
        return E.numapp(name, *args[:arity])
    return f


for _t in ('f32', 'f64'):
    for _pre in ('std::%s::<impl %s>::' % (_t, _t), 'std::num::<impl %s>::' % _t, 'std::num::%s::<impl %s>::' % (_t, _t)):
        for _u in ('sin', 'cos', 'tan', 'floor', 'ceil', 'exp', 'ln', 'asin', 'acos', 'round', 'signum', 'trunc', 'fract', 'to_radians', 'to_degrees'):
            MODELS[_pre + _u] = _fn(_u)
        MODELS[_pre + 'abs'] = lambda e, fr, st, a, tys, dt, line, ga: E.absv(a[0])
        MODELS[_pre + 'atan2'] = _fn('atan2', 2)
        MODELS[_pre + 'powf'] = _fn('powf', 2)
        MODELS[_pre + 'hypot'] = lambda e, fr, st, a, tys, dt, line, ga: E.sqrt(E.add(E.mul(a[0], a[0]), E.mul(a[1], a[1])))
        MODELS[_pre + 'sqrt'] = lambda e, fr, st, a, tys, dt, line, ga: E.sqrt(a[0])
        MODELS[_pre + 'recip'] = lambda e, fr, st, a, tys, dt, line, ga: E.div(E.ONE, a[0])
        MODELS[_pre + 'mul_add'] = lambda e, fr, st, a, tys, dt, line, ga: E.add(E.mul(a[0], a[1]), a[2])
        MODELS[_pre + 'max'] = lambda e, fr, st, a, tys, dt, line, ga: E.maxv(a[0], a[1])
        MODELS[_pre + 'min'] = lambda e, fr, st, a, tys, dt, line, ga: E.minv(a[0], a[1])
        MODELS[_pre + 'clamp'] = lambda e, fr, st, a, tys, dt, line, ga: E.maxv(a[1], E.minv(a[0], a[2]))
        MODELS[_pre + 'is_finite'] = lambda e, fr, st, a, tys, dt, line, ga: E.apply1('isfin', lambda x: E.boolsym(term(('app', 'is_finite', (x,)))), a[0])
        MODELS[_pre + 'is_nan'] = lambda e, fr, st, a, tys, dt, line, ga: E.apply1('isnan', lambda x: E.boolsym(term(('app', 'is_nan', (x,)))), a[0])
        MODELS[_pre + 'sin_cos'] = lambda e, fr, st, a, tys, dt, line, ga: term(('agg', '()', None, (('0', E.numapp('sin', a[0])), ('1', E.numapp('cos', a[0])))))
        MODELS[_pre + 'is_sign_negative'] = lambda e, fr, st, a, tys, dt, line, ga: E.lt(a[0], E.ZERO)
        MODELS[_pre + 'is_sign_positive'] = lambda e, fr, st, a, tys, dt, line, ga: E.ge(a[0], E.ZERO)

        def _powi(e, fr, st, a, tys, dt, line, ga):
            if is_term(a[1]) and E.pisconst(E.poly(a[1])):
                n = int(E.pcval(E.poly(a[1])))
                if 0 <= n <= 6:
                    r = E.ONE
                    for _ in range(n):
                        r = E.mul(r, a[0])
                    return r
            return E.numapp('powi', a[0], a[1])
        MODELS[_pre + 'powi'] = _powi
for _t in ('i32', 'i64', 'usize', 'u32', 'u8', 'u16', 'isize', 'u64', 'i16', 'i8'):
    _pre = 'std::num::<impl %s>::' % _t
    MODELS[_pre + 'abs'] = lambda e, fr, st, a, tys, dt, line, ga: E.absv(a[0])
    for _w, _f in (('wrapping_add', E.add), ('wrapping_sub', E.sub), ('wrapping_mul', E.mul), ('saturating_add', E.add)):
        MODELS[_pre + _w] = (lambda g: lambda e, fr, st, a, tys, dt, line, ga: g(a[0], a[1]))(_f)
    MODELS['std::cmp::Ord::max'] = lambda e, fr, st, a, tys, dt, line, ga: E.maxv(a[0], a[1])
    MODELS['std::cmp::Ord::min'] = lambda e, fr, st, a, tys, dt, line, ga: E.minv(a[0], a[1])
    MODELS['std::cmp::impls::<impl std::cmp::Ord for %s>::max' % _t] = lambda e, fr, st, a, tys, dt, line, ga: E.maxv(a[0], a[1])
    MODELS['std::cmp::impls::<impl std::cmp::Ord for %s>::min' % _t] = lambda e, fr, st, a, tys, dt, line, ga: E.minv(a[0], a[1])
MODELS['std::cmp::max'] = lambda e, fr, st, a, tys, dt, line, ga: E.maxv(a[0], a[1])
MODELS['std::cmp::min'] = lambda e, fr, st, a, tys, dt, line, ga: E.minv(a[0], a[1])

for _tr, _f in (('Add::add', E.add), ('Sub::sub', E.sub), ('Mul::mul', E.mul), ('Div::div', E.div)):
    def _mk(g, nm):
        def f(e, fr, st, args, tys, dt, line, ga):
            d = [e.P.types[e.P.peel(t)] for t in tys]
            vs = []
            for a, t, dd in zip(args, tys, d):
                if dd['k'] == 'ref':
                    a = e.load(st, a, dd['t'])
                    dd = e.P.types[dd['t']]
                if dd['k'] != 'prim':
                    return NotImplemented
                vs.append(a)
            return g(*vs)
        return f
    MODELS['std::ops::' + _tr] = _mk(_f, _tr)
    for _a in ('f32', '&f32', "&'a f32"):
        for _b in ('', '<&f32>', '<f32>'):
            MODELS['<%s as std::ops::%s%s>::%s' % (_a, _tr.split('::')[0], _b, _tr.split('::')[1])] = MODELS['std::ops::' + _tr]
for _tr, _f in (('AddAssign', E.add), ('SubAssign', E.sub), ('MulAssign', E.mul), ('DivAssign', E.div)):
    def _mk2(g):
        def f(e, fr, st, args, tys, dt, line, ga):
            from .engine import UNIT
            pt = e.P.pointee(tys[0])
            if e.P.types[pt]['k'] != 'prim':
                return NotImplemented
            b = args[1]
            if e.P.types[e.P.peel(tys[1])]['k'] == 'ref':
                b = e.load(st, b, pt)
            e.store(st, args[0], g(e.load(st, args[0], pt), b), fr, line)
            return UNIT
        return f
    _m = _tr.replace('Assign', '').lower() + '_assign'
    MODELS['std::ops::%s::%s' % (_tr, _m)] = _mk2(_f)
    for _b in ('', '<&f32>'):
        MODELS['<f32 as std::ops::%s%s>::%s' % (_tr, _b, _m)] = MODELS['std::ops::%s::%s' % (_tr, _m)]


# ---- Vec / slices ----------------------------------------------------------------
def _range_start(e, v):
    p = payload(v) if is_term(v) else None
    if p and p[0] == 'agg' and isinstance(p[1], str) and p[1].startswith('std::ops::Range'):
        return p
    return None


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
       'std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def m_index(e, fr, st, args, tys, dt, line, ga):
    it = e.P.types[e.P.peel(tys[1])]
    if it['k'] != 'prim':
        r = _range_start(e, args[1])
        if r is not None and r[1] == 'std::ops::RangeFull':
            return args[0]
        if r is not None:
            d = dict(r[3])
            s, n = d.get('start', E.ZERO), d.get('end')
            return slice_view(e, st, args[0], s, n)
        if it['k'] == 'adt' and it['p'] == 'std::ops::RangeFull':
            return args[0]
        return NotImplemented
    e.effects.append(e_index(e, fr, st, args[0], args[1], line))
    return e.extend(args[0], ('i', args[1]))


def e_index(e, fr, st, base, idx, line):
    from .engine import Effect
    return Effect('index', st.pc, fr.path, line, args=[base, idx])


def slice_view(e, st, ptr, start, end):
    """sub-slice: only views starting at 0 keep their identity."""
    if start == E.ZERO and end is None:
        return ptr
    if end is None:
        end = e.arr_len(st, ptr)
    return e._leafwise(ptr, lambda x: sub_slice(e, x, start, end))


def sub_slice(e, x, start, end):
    q = e._slice(x)
    if q:
        return term(('app', 'slice', (q[0], E.add(q[1], start), E.add(q[1], end))))
    return term(('app', 'slice', (x, start, end)))


@model('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut', 'std::vec::Vec::<T, A>::get')
def m_get(e, fr, st, args, tys, dt, line, ga):
    n = e.arr_len(st, args[0])
    c = E.lt(args[1], n)
    return ite(c, leaf_some(e, e.extend(args[0], ('i', args[1]))), e.none())


@model('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::first_mut')
def m_first(e, fr, st, args, tys, dt, line, ga):
    n = e.arr_len(st, args[0])
    return ite(E.gt(n, E.ZERO), leaf_some(e, e.extend(args[0], ('i', E.ZERO))), e.none())


@model('std::slice::<impl [T]>::last', 'std::slice::<impl [T]>::last_mut')
def m_last(e, fr, st, args, tys, dt, line, ga):
    n = e.arr_len(st, args[0])
    return ite(E.gt(n, E.ZERO), leaf_some(e, e.extend(args[0], ('i', E.sub(n, E.ONE)))), e.none())


@model('std::vec::Vec::<T, A>::len', 'std::slice::<impl [T]>::len')
def m_len(e, fr, st, args, tys, dt, line, ga):
    return e.arr_len(st, args[0])


@model('std::vec::Vec::<T, A>::is_empty', 'std::slice::<impl [T]>::is_empty')
def m_isempty(e, fr, st, args, tys, dt, line, ga):
    return E.eqnum(e.arr_len(st, args[0]), E.ZERO)


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', 'std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def m_same(e, fr, st, args, tys, dt, line, ga):
    return args[0]


@model('std::vec::Vec::<T, A>::push')
def m_push(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT, Effect
    v = e.load(st, args[0])
    n = e.arr_len(st, args[0])

    def f(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg' and p[1] == 'vec':
            return term(('agg', 'vec', None, p[3] + ((('i', E.const(len(p[3]))), args[1]),)))
        l = e.coerce_num(e.field(x, 'len'))
        b = E.mk_upd(x, [('len', E.add(l, E.ONE)), (('i', l), args[1])]) if p[0] in e.RAW else e.set_field(e.set_field(x, ('i', l), args[1]), 'len', E.add(l, E.ONE))
        return b
    e.store(st, args[0], e._leafwise(v, f), fr, line)
    e.effects.append(Effect('push', st.pc, fr.path, line, args=[args[0], args[1]], mem=None))
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def m_pop(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0])
    n = e.arr_len(st, args[0])
    c = E.gt(n, E.ZERO)
    el = e.load(st, e.extend(args[0], ('i', E.sub(n, E.ONE))), opt_inner(e, dt))

    def f(x):
        p = payload(x)
        if x == BOTTOM:
            return BOTTOM
        if p[0] == 'agg' and p[1] == 'vec':
            return term(('agg', 'vec', None, p[3][:-1])) if p[3] else x
        l = e.coerce_num(e.field(x, 'len'))
        return e.set_field(x, 'len', ite(E.gt(l, E.ZERO), E.sub(l, E.ONE), l))
    e.store(st, args[0], e._leafwise(v, f), fr, line)
    return ite(c, leaf_some(e, el), e.none())


@model('std::vec::Vec::<T, A>::clear')
def m_clear(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    e.store(st, args[0], EMPTY_VEC, fr, line)
    return UNIT


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    n = e.arr_len(st, args[0])
    e.store(st, e.extend(args[0], 'len'), E.minv(args[1], n), fr, line)
    return UNIT


@model('std::vec::Vec::<T, A>::resize', 'std::vec::Vec::<T, A>::resize_with')
def m_resize(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    v = e.load(st, args[0])

    def f(x):
        p = payload(x)
        if p[0] == 'agg' and p[1] == 'vec' and not p[3]:
            el = args[2]
            if is_term(el) and payload(el)[0] == 'agg' and isinstance(payload(el)[1], tuple):
                el = e.sym('default-element')
            n = args[1]
            if is_term(el) and payload(el)[0] == 'fn':
                el = e.sym('default-element')
            b = term(('app', 'repeat', (el, n)))
            return E.mk_upd(b, [('len', n)])
        if p[0] in e.RAW + ('upd',):
            return e.set_field(x, 'len', args[1])
        return E.mk_upd(term(('app', 'resized', (x, args[1]))), [('len', args[1])])
    e.store(st, args[0], e._leafwise(v, f), fr, line)
    return UNIT


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve_exact')
def m_nop(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    return UNIT


@model('std::slice::<impl [T]>::swap')
def m_sliceswap(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    a, b = e.extend(args[0], ('i', args[1])), e.extend(args[0], ('i', args[2]))
    x, y = e.load(st, a), e.load(st, b)
    e.store(st, a, y, fr, line)
    e.store(st, b, x, fr, line)
    return UNIT


@model('std::slice::<impl [T]>::to_vec', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from')
def m_to_vec(e, fr, st, args, tys, dt, line, ga):
    s = e._slice(args[0]) if is_term(args[0]) else None
    if s:
        n = E.sub(s[2], s[1])
        if is_term(n) and E.isnum(n) and E.pisconst(payload(n)[1]) and n != E.ZERO and payload(n)[1][0][1] <= 8:
            return term(('agg', 'vec', None, tuple((('i', E.const(i)), e.load(st, e.extend(s[0], ('i', E.add(s[1], E.const(i)))))) for i in range(int(payload(n)[1][0][1])))))
        return args[0]
    return e.load(st, args[0])


@model('std::slice::<impl [T]>::concat')
def m_concat(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0])
    if is_term(v) and payload(v)[0] == 'agg' and payload(v)[1] == 'vec' and payload(v)[3]:
        parts = [x for _, x in payload(v)[3]]
        lens = [e.arr_len(st, x) for x in parts[1:]]
        if all(is_term(n) and E.isnum(n) and E.pisconst(payload(n)[1]) for n in lens):
            out = e.load(st, parts[0])
            n = e.arr_len(st, parts[0])
            for x, m in zip(parts[1:], lens):
                for j in range(int(E.pcval(payload(m)[1]))):
                    out = e.set_field(out, ('i', n), e.load(st, e.extend(x, ('i', E.const(j)))))
                    n = E.add(n, E.ONE)
            return e.set_field(out, 'len', n)
    return E.app('concat', e.load(st, args[0]))


# ---- iterators -------------------------------------------------------------------
def agg(name, *kv):
    return term(('agg', name, None, tuple(kv)))


@model("std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next")
def m_rangenext(e, fr, st, args, tys, dt, line, ga):
    ps, pe = e.extend(args[0], 'start'), e.extend(args[0], 'end')
    it = opt_inner(e, dt)
    s, n = e.load(st, ps, it), e.load(st, pe, it)
    c = E.lt(s, n)
    e.store(st, ps, ite(c, E.add(s, E.ONE), s), fr, line)
    return ite(c, leaf_some(e, s), e.none())


@model("std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back")
def m_rangenextback(e, fr, st, args, tys, dt, line, ga):
    ps, pe = e.extend(args[0], 'start'), e.extend(args[0], 'end')
    it = opt_inner(e, dt)
    s, n = e.load(st, ps, it), e.load(st, pe, it)
    c = E.lt(s, n)
    m = E.sub(n, E.ONE)
    e.store(st, pe, ite(c, m, n), fr, line)
    return ite(c, leaf_some(e, m), e.none())


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinew(e, fr, st, args, tys, dt, line, ga):
    # start..=end over integers: start..end+1
    return agg('std::ops::Range', ('start', args[0]), ('end', E.add(args[1], E.ONE)))


MODELS["std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next"] = m_rangenext


def mk_iter(e, st, ptr):
    return agg('iter', ('ptr', ptr), ('idx', E.ZERO), ('len', e.arr_len(st, ptr)))


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", 'std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut',
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def m_iter(e, fr, st, args, tys, dt, line, ga):
    return mk_iter(e, st, args[0])


@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def m_intoiter(e, fr, st, args, tys, dt, line, ga):
    p = spill(e, st, args[0], tys[0])
    return agg('into_iter', ('ptr', p), ('idx', E.ZERO), ('len', e.arr_len(st, p)))


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def m_iternext(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0])
    p = payload(v) if is_term(v) else None
    if not p or p[0] not in ('agg', 'upd'):
        return NotImplemented
    ptr, idx, ln = e.field(v, 'ptr'), e.coerce_num(e.field(v, 'idx')), e.coerce_num(e.field(v, 'len'))
    c = E.lt(idx, ln)
    e.store(st, e.extend(args[0], 'idx'), ite(c, E.add(idx, E.ONE), idx), fr, line)
    return ite(c, leaf_some(e, e.extend(ptr, ('i', idx))), e.none())


@model('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def m_intoiternext(e, fr, st, args, tys, dt, line, ga):
    v = e.load(st, args[0])
    ptr, idx, ln = e.field(v, 'ptr'), e.coerce_num(e.field(v, 'idx')), e.coerce_num(e.field(v, 'len'))
    c = E.lt(idx, ln)
    e.store(st, e.extend(args[0], 'idx'), ite(c, E.add(idx, E.ONE), idx), fr, line)
    el = e.load(st, e.extend(ptr, ('i', idx)), opt_inner(e, dt))
    return ite(c, leaf_some(e, el), e.none())


@model('std::iter::Iterator::enumerate')
def m_enumerate(e, fr, st, args, tys, dt, line, ga):
    return agg('enumerate', ('iter', args[0]), ('count', E.ZERO))


@model('<std::iter::Enumerate<I> as std::iter::Iterator>::next')
def m_enumnext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    it = d['a'][0]
    pi = e.extend(args[0], 'iter')
    r = iter_next(e, fr, st, pi, it, line)
    if r is None:
        return NotImplemented
    c, v = opt_split(e, r)
    pc = e.extend(args[0], 'count')
    n = e.coerce_num(e.load(st, pc))
    e.store(st, pc, ite(c, E.add(n, E.ONE), n), fr, line)
    tup = e._leafwise(v, lambda x: agg('()', ('0', n), ('1', x)) if x != BOTTOM else BOTTOM)
    return ite(c, leaf_some(e, tup), e.none())


def iter_next(e, fr, st, pi, it, line):
    P = e.P
    d = P.types[P.peel(it)]
    if d['k'] != 'adt':
        return None
    names = {'std::slice::Iter': "<std::slice::Iter<'a, T> as std::iter::Iterator>::next", 'std::slice::IterMut': "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
             'std::vec::IntoIter': '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', 'std::ops::Range': "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
             'std::iter::Enumerate': '<std::iter::Enumerate<I> as std::iter::Iterator>::next', 'std::iter::Rev': 'rev', 'std::iter::Zip': 'zip', 'std::iter::Take': 'take', 'std::iter::Skip': 'skip',
             'std::ops::RangeInclusive': "std::iter::range::<impl std::iter::Iterator for std::ops::RangeInclusive<A>>::next", 'std::iter::Map': 'map'}
    if d['p'] in P.adts:
        for im in P.impls:
            if im.get('trait') == 'std::iter::Iterator' and P.types[im['self']].get('p') == d['p']:
                uid = [u for n, u, _ in im['items'] if n == 'next'][0]
                out = {}
                e._unify(im['self'], it, out)
                return e.inline_call(fr, st, P.fns[uid], [pi], out)
        return None
    m = MODELS.get(names.get(d['p']))
    if m is None:
        return None
    pt = P.intern({'s': '&mut ' + d['s'], 'k': 'ref', 't': it, 'm': True})
    el = elem_type(e, it)
    ot = P.intern({'s': 'Option<%s>' % (P.types[el]['s'] if el is not None else '?'), 'k': 'adt', 'p': 'std::option::Option', 'a': [el] if el is not None else []})
    r = m(e, fr, st, [pi], [pt], ot, line, [])
    return None if r is NotImplemented else r


def elem_type(e, it):
    P = e.P
    d = P.types[P.peel(it)]
    a = [x for x in d.get('a', []) if isinstance(x, int)]
    if d['p'] in ('std::slice::Iter', 'std::slice::IterMut'):
        return P.intern({'s': '&' + P.types[a[0]]['s'], 'k': 'ref', 't': a[0], 'm': d['p'].endswith('Mut')})
    if d['p'] in ('std::vec::IntoIter', 'std::ops::Range'):
        return a[0]
    if d['p'] in ('std::iter::Rev', 'std::iter::Take', 'std::iter::Skip'):
        return elem_type(e, a[0])
    return None


@model('std::iter::Iterator::rev')
def m_rev(e, fr, st, args, tys, dt, line, ga):
    return agg('rev', ('iter', args[0]))


@model('<std::iter::Rev<I> as std::iter::Iterator>::next', 'rev')
def m_revnext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    it = d['a'][0]
    dd = e.P.types[e.P.peel(it)]
    pi = e.extend(args[0], 'iter')
    if dd['p'] == 'std::ops::Range':
        return m_rangenextback(e, fr, st, [pi], tys, dt, line, ga)
    if dd['p'] in ('std::slice::Iter', 'std::slice::IterMut'):
        v = e.load(st, pi)
        ptr, idx, ln = e.field(v, 'ptr'), e.coerce_num(e.field(v, 'idx')), e.coerce_num(e.field(v, 'len'))
        c = E.lt(idx, ln)
        m = E.sub(ln, E.ONE)
        e.store(st, e.extend(pi, 'len'), ite(c, m, ln), fr, line)
        return ite(c, leaf_some(e, e.extend(ptr, ('i', m))), e.none())
    return NotImplemented


@model('std::iter::Iterator::zip')
def m_zip(e, fr, st, args, tys, dt, line, ga):
    b = args[1]
    d = e.P.types[e.P.peel(tys[1])]
    if d['k'] == 'ref':
        b = mk_iter(e, st, args[1])
    return agg('zip', ('a', args[0]), ('b', b))


@model('<std::iter::Zip<A, B> as std::iter::Iterator>::next', 'zip')
def m_zipnext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    a = [x for x in d['a'] if isinstance(x, int)]
    ra = iter_next(e, fr, st, e.extend(args[0], 'a'), a[0], line)
    rb = iter_next(e, fr, st, e.extend(args[0], 'b'), a[1], line)
    if ra is None or rb is None:
        return NotImplemented
    ca, va = opt_split(e, ra)
    cb, vb = opt_split(e, rb)
    c = AND(ca, cb)
    tup = E.applyn(None, lambda x, y: agg('()', ('0', x), ('1', y)) if BOTTOM not in (x, y) else BOTTOM, [va, vb])
    return ite(c, leaf_some(e, tup), e.none())


@model('std::iter::Iterator::take')
def m_itake(e, fr, st, args, tys, dt, line, ga):
    return agg('take', ('iter', args[0]), ('n', args[1]))


@model('<std::iter::Take<I> as std::iter::Iterator>::next', 'take')
def m_itakenext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    it = [x for x in d['a'] if isinstance(x, int)][0]
    v = e.load(st, e.extend(args[0], 'iter'))
    p = payload(v) if is_term(v) else None
    n = e.coerce_num(e.load(st, e.extend(args[0], 'n')))
    r = iter_next(e, fr, st, e.extend(args[0], 'iter'), it, line)
    if r is None:
        return NotImplemented
    e.store(st, e.extend(args[0], 'n'), E.sub(n, E.ONE), fr, line)
    return ite(E.gt(n, E.ZERO), r, e.none())


@model('std::iter::Iterator::map')
def m_imap(e, fr, st, args, tys, dt, line, ga):
    return agg('map', ('iter', args[0]), ('f', args[1]))


@model('<std::iter::Map<I, F> as std::iter::Iterator>::next', 'map')
def m_imapnext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    it = [x for x in d['a'] if isinstance(x, int)][0]
    r = iter_next(e, fr, st, e.extend(args[0], 'iter'), it, line)
    if r is None:
        return NotImplemented
    c, v = opt_split(e, r)
    y = guarded(e, st, c, lambda s: e.call_closure(fr, s, e.load(s, e.extend(args[0], 'f')), [v], opt_inner(e, dt), line))
    if y is None:
        return NotImplemented
    return ite(c, leaf_some(e, y), e.none())


def advanced(e, v, n):
    """the iterator after n more steps."""
    p = payload(v) if is_term(v) else None
    if not p or p[0] != 'agg':
        return None
    up = {'iter': ('idx',), 'into_iter': ('idx',), 'std::ops::Range': ('start',), 'enumerate': ('count',)}.get(p[1], ())
    if p[1] not in ('iter', 'into_iter', 'std::ops::Range', 'enumerate', 'take', 'map', 'skip', 'zip'):
        return None
    for k in up:
        v = e.set_field(v, k, E.add(e.coerce_num(e.field(v, k)), n))
    if p[1] == 'take':
        v = e.set_field(v, 'n', E.sub(e.coerce_num(e.field(v, 'n')), n))
    for k in {'zip': ('a', 'b'), 'enumerate': ('iter',), 'take': ('iter',), 'map': ('iter',), 'skip': ('iter',)}.get(p[1], ()):
        w = advanced(e, e.field(v, k), n)
        if w is None:
            return None
        v = e.set_field(v, k, w)
    return v


@model('std::iter::Iterator::skip')
def m_skip(e, fr, st, args, tys, dt, line, ga):
    v = advanced(e, args[0], e.coerce_num(args[1]))
    return NotImplemented if v is None else agg('skip', ('iter', v))


@model('<std::iter::Skip<I> as std::iter::Iterator>::next', 'skip')
def m_skipnext(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.pointee(tys[0])]
    it = [x for x in d['a'] if isinstance(x, int)][0]
    return iter_next(e, fr, st, e.extend(args[0], 'iter'), it, line) or NotImplemented


# ---- closures --------------------------------------------------------------------
@model('std::ops::FnMut::call_mut', 'std::ops::Fn::call', 'std::ops::FnOnce::call_once', "std::ops::function::impls::<impl std::ops::FnMut<A> for &mut F>::call_mut",
       "std::ops::function::impls::<impl std::ops::Fn<A> for &F>::call", "std::ops::function::impls::<impl std::ops::FnOnce<A> for &mut F>::call_once")
def m_callmut(e, fr, st, args, tys, dt, line, ga):
    from .engine import Effect
    tup = args[1]
    p = payload(tup)
    unpacked = [v for _, v in p[3]] if p and p[0] == 'agg' else [tup]
    r = e.call_closure(fr, st, args[0], unpacked, dt, line)
    if r is not None:
        return r
    v, n = e.fresh_call('callback', dt)
    at = e.P.types[e.P.peel(tys[1])].get('a', [])
    e.effects.append(Effect('call', st.pc, fr.path, line, name='<callback>', args=[args[0]] + unpacked, ret=v, mem=dict(st.mem), argtys=[tys[0]] + list(at), info={'uid': None}))
    for a, t in zip(unpacked, at):
        e.havoc_arg(fr, st, a, t, frozenset(), ('<callback>', n), True)
    return v


# ---- time, atomics ---------------------------------------------------------------
def m_fresh(name):
    def f(e, fr, st, args, tys, dt, line, ga):
        v, n = e.fresh_call(name, dt)
        return v
    return f


for _n in ('std::time::Instant::now', 'std::time::Instant::elapsed', 'std::time::Duration::subsec_nanos', 'std::time::Duration::as_secs', 'std::time::Duration::as_secs_f32', 'std::time::Duration::as_millis',
           'std::time::Duration::as_secs_f64', 'std::time::Duration::as_micros'):
    MODELS[_n] = m_fresh(_n.split('::')[-1])
for _t in ('usize', 'u64', 'u32', 'bool', 'i32'):
    for _m in ('fetch_add', 'fetch_max', 'load', 'fetch_sub', 'fetch_min', 'swap', 'store', 'fetch_or', 'fetch_and'):
        def _atom(e, fr, st, args, tys, dt, line, ga, _m=_m):
            from .engine import Effect
            if _m == 'load' and is_term(args[0]):
                return e.coerce(term(('app', 'atomic', (args[0],))), dt)     # a process-wide setting: assumed constant during the call
            v, n = e.fresh_call('atomic_' + _m, dt)
            if _m != 'load':
                e.effects.append(Effect('atomic', st.pc, fr.path, line, name=_m, args=args))
            return v
        MODELS['std::sync::atomic::Atomic::<%s>::%s' % (_t, _m)] = _atom


# ---- trait methods left unresolved because the receiver mentions a generic parameter ----
def _generic(ptrm, vecm):
    def f(e, fr, st, args, tys, dt, line, ga):
        pt = e.P.pointee(tys[0])
        d = e.P.types[e.P.peel(pt)] if pt is not None else {'k': '?'}
        if d['k'] == 'adt' and d['p'] == 'std::vec::Vec' or d['k'] in ('array', 'slice'):
            return vecm(e, fr, st, args, tys, dt, line, ga)
        if ptrm is not None and e.P.pointee(pt) is not None:
            return ptrm(e, fr, st, args, tys, dt, line, ga)
        return NotImplemented
    return f


for _n in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow'):
    MODELS[_n] = _generic(m_ptr, m_same)
for _n in ('std::ops::Index::index', 'std::ops::IndexMut::index_mut'):
    MODELS[_n] = _generic(None, m_index)
MODELS['std::convert::TryInto::try_into'] = m_tryinto
MODELS['std::convert::TryFrom::try_from'] = m_tryinto
MODELS['std::convert::From::from'] = m_id
MODELS['std::convert::Into::into'] = m_id


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_extend(e, fr, st, args, tys, dt, line, ga):
    from .engine import UNIT
    a, b = e.load(st, args[0]), e.load(st, args[1])
    na, nb = e.arr_len(st, args[0]), e.arr_len(st, args[1])
    e.store(st, args[0], E.mk_upd(E.app('concat', a, b), [('len', E.add(na, nb))]), fr, line)
    return UNIT


@model('std::slice::<impl [T]>::split_at_mut', 'std::slice::<impl [T]>::split_at')
def m_splitat(e, fr, st, args, tys, dt, line, ga):
    n = e.arr_len(st, args[0])
    return agg('()', ('0', slice_view(e, st, args[0], E.ZERO, args[1])), ('1', slice_view(e, st, args[0], args[1], n)))


@model('std::slice::<impl [T]>::split_first_mut', 'std::slice::<impl [T]>::split_first')
def m_splitfirst(e, fr, st, args, tys, dt, line, ga):
    n = e.arr_len(st, args[0])
    rest = e._leafwise(args[0], lambda x: sub_slice(e, x, E.ONE, n))
    pair = E.applyn(None, lambda x, y: agg('()', ('0', x), ('1', y)), [e.extend(args[0], ('i', E.ZERO)), rest])
    return ite(E.gt(n, E.ZERO), leaf_some(e, pair), e.none())


@model('std::iter::Iterator::next')
def m_anynext(e, fr, st, args, tys, dt, line, ga):
    it = e.P.pointee(tys[0])
    r = iter_next(e, fr, st, args[0], it, line) if it is not None else None
    return NotImplemented if r is None else e.coerce(r, dt)


@model('std::iter::IntoIterator::into_iter')
def m_anyinto(e, fr, st, args, tys, dt, line, ga):
    d = e.P.types[e.P.peel(tys[0])]
    if d['k'] == 'ref':
        return m_iter(e, fr, st, args, tys, dt, line, ga)
    if d['k'] == 'adt' and d['p'] == 'std::vec::Vec' or d['k'] == 'array':
        return m_intoiter(e, fr, st, args, tys, dt, line, ga)
    return args[0]
