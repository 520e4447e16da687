"""Joint definitions and construction."""
from .jointapi import *


def check(c):
    c.rule('default', 'a default joint definition has the documented value in every field')
    c.rule('initialize', 'initialize records the two bodies and derives local anchors, axes, angles and lengths from their current transforms')
    c.rule('construct', 'the created joint carries every definition field (sanitised as documented), the right bodies and no accumulated impulse')
    c.rule('stiffness', 'the stiffness helpers compute spring constants from frequency, damping ratio and the reduced mass or inertia')
    c.rule('dispatch', 'each kind of definition creates the joint type of the same kind and each joint reports its own kind')
    P = c.P
    for jt in ALL:
        check_defs(c, P, jt)
        check_new(c, P, jt)
        for m in ('as_derived', 'as_derived_mut'):
            r = summarise(c, P, '<joints::b2_%s_joint::B2%sJoint<D> as b2_joint::ToDerivedJoint<D>>::%s' % (jt.name, jt.name, m), names=['self'])
            inner = r.value(r.ret, ('0',)) if variant_of(r.ret) else None
            c.ob('dispatch', '%s %s' % (jt.name, m), variant_of(r.ret) == 'E%sJoint' % jt.typ and inner == term(('ptr', ('H', sym('self').n), ())), 'reports %s' % E.show(r.ret))
    stiffness(c, P)
    create(c, P)


def stiffness(c, P):
    A, Bb = Body(sym('body_a')), Body(sym('body_b'))
    hz, z = sym('hz').num(), sym('z').num()
    w = 2 * f32(3.14159265359) * hz
    for fn, a, b in (('b2_linear_stiffness', A.m, Bb.m), ('b2_angular_stiffness', A.i + A.m * dot(A.lc, A.lc), Bb.i + Bb.m * dot(Bb.lc, Bb.lc))):
        m = ite((a > 0) & (b > 0), a * b / (a + b), ite(a > 0, a, b))
        r = summarise(c, P, 'b2_joint::' + fn, names=['k', 'd', 'hz', 'z', 'body_a', 'body_b'])
        expect_changes(c, 'stiffness', fn, r, {'k': m * w * w, 'd': 2 * m * z * w})
        no_panic(c, 'stiffness', fn, r)


def only(d, i):
    """the definition is of kind i and of no other kind."""
    r = d.is_(i, 10)
    for j in range(10):
        if j != i:
            r = r & ~d.is_(j, 10)
    return r


def create(c, P):
    hooks = {}
    for jt in ALL:
        hooks[T % (jt.name, jt.name, 'new')] = pure('new_' + jt.name, ret='raw')
    r = summarise(c, P, 'b2_joint::B2joint::<D>::create', names=['def'], hooks=hooks)
    order = ['distance', 'friction', 'gear', 'mouse', 'motor', 'pulley', 'revolute', 'prismatic', 'weld', 'wheel']
    d = sym('def')
    seen = {}
    for x, _ in r.flat(kinds=('call',)):
        if x.name.startswith('new_'):
            seen.setdefault(x.name[4:], []).append(x)
    for i, nm in enumerate(order):
        typ = {j.name: j.typ for j in ALL}[nm]
        xs = seen.get(nm, [])
        ok = len(xs) == 1 and all(E.constrain(xs[0].guard, only(d, j).n) == (TRUE if i == j else FALSE) for j in range(10)) and xs[0].args[0] == term(('ptr', ('H', d.n), (('d', typ + 'Joint'), '0')))
        det = '; '.join('%s when %s' % (E.show(x.args[0]), E.show(x.guard)) for x in xs) or 'never created'
        c.ob('dispatch', 'definition of kind %s creates that joint' % nm, ok, det)
