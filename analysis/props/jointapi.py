"""Joint public API: definitions, construction, accessors, setters, reactions - tabulated per joint type."""
from .jointlib import *

BA, BB = Body(bodyA), Body(bodyB)
ORD = {x: i for i, x in enumerate(['unknown', 'distance', 'friction', 'gear', 'motor', 'mouse', 'prismatic', 'pulley', 'revolute', 'weld', 'wheel'])}
DEF = 'joints::b2_%s_joint::B2%sJointDef'
JT = 'b2_joint::B2jointType'

NUM, BOOL, VEC = 'num', 'bool', 'vec'
ANCH = [('local_anchor_a', VEC, (0, 0)), ('local_anchor_b', VEC, (0, 0))]
MOT = [('enable_motor', BOOL, False), ('motor_speed', NUM, 0)]
SOFT = [('stiffness', NUM, 0), ('damping', NUM, 0)]
ANG = [('reference_angle', NUM, 0)]
LIMT = [('enable_limit', BOOL, False), ('lower_translation', NUM, 0), ('upper_translation', NUM, 0)]
# definition fields with defaults
FIELDS = {
    'revolute': ANCH + ANG + [('enable_limit', BOOL, False), ('lower_angle', NUM, 0), ('upper_angle', NUM, 0), ('max_motor_torque', NUM, 0)] + MOT,
    'prismatic': ANCH + ANG + LIMT + MOT + [('local_axis_a', VEC, (1, 0)), ('max_motor_force', NUM, 0)],
    'distance': ANCH + SOFT + [('length', NUM, 1), ('min_length', NUM, 0), ('max_length', NUM, 'max')],
    'weld': ANCH + ANG + SOFT,
    'wheel': ANCH + LIMT + MOT + SOFT + [('local_axis_a', VEC, (1, 0)), ('max_motor_torque', NUM, 0)],
    'friction': ANCH + [('max_force', NUM, 0), ('max_torque', NUM, 0)],
    'motor': [('linear_offset', VEC, (0, 0)), ('angular_offset', NUM, 0), ('max_force', NUM, 1), ('max_torque', NUM, 1), ('correction_factor', NUM, 0.3)],
    'mouse': [('target', VEC, (0, 0)), ('max_force', NUM, 0)] + SOFT,
    'pulley': [('ground_anchor_a', VEC, (-1, 1)), ('ground_anchor_b', VEC, (1, 1)), ('local_anchor_a', VEC, (-1, 0)), ('local_anchor_b', VEC, (1, 0)),
               ('length_a', NUM, 0), ('length_b', NUM, 0), ('ratio', NUM, 1)],
    'gear': [('ratio', NUM, 1)],
}
ZEROS = {   # accumulated impulses: a new joint starts with none
    'revolute': ['m_impulse.x', 'm_impulse.y', 'm_motor_impulse', 'm_lower_impulse', 'm_upper_impulse'],
    'prismatic': ['m_impulse.x', 'm_impulse.y', 'm_motor_impulse', 'm_lower_impulse', 'm_upper_impulse'],
    'distance': ['m_impulse', 'm_lower_impulse', 'm_upper_impulse'], 'weld': ['m_impulse.x', 'm_impulse.y', 'm_impulse.z'],
    'wheel': ['m_impulse', 'm_motor_impulse', 'm_spring_impulse', 'm_lower_impulse', 'm_upper_impulse'],
    'friction': ['m_linear_impulse.x', 'm_linear_impulse.y', 'm_angular_impulse'], 'motor': ['m_linear_impulse.x', 'm_linear_impulse.y', 'm_angular_impulse'],
    'mouse': ['m_impulse.x', 'm_impulse.y'], 'pulley': ['m_impulse'], 'gear': ['m_impulse'],
}


def value(o, f, kind):
    return {NUM: o.num, BOOL: o.bool, VEC: o.vec}[kind](f)


def const_of(kind, d):
    if kind == VEC:
        return V(*d)
    if kind == BOOL:
        return S(TRUE if d else FALSE)
    return f32(3.4028234663852886e38) if d == 'max' else f32(d)


def ret_at(r, path, want):
    w = {}
    expand('', want, w)
    for p, x in w.items():
        yield p, r.value(r.ret, tuple(q for q in (path + p).split('.') if q)), x


def variant_of(n):
    p = E.payload(n) if E.is_term(n) else ()
    return p[2] if p and p[0] == 'agg' else None


def ob_ret(c, rule, construct, r, path, want, under=None):
    for p, got, x in ret_at(r, path, want):
        xn = x.n if isinstance(x, (S, Obj)) else nd(x)
        if under is not None:
            got, xn = E.constrain(got, under.n), E.constrain(xn, under.n)
            x = S(xn)
        c.ob(rule, construct + ' ' + (path + p or 'result'), same(got, x), 'expected %s, code gives %s; differs %s' % (E.show(xn, 5)[:200], E.show(got, 5)[:200], show_difference(got, xn)))


def normalised(u):
    ln = length(u)
    tiny = ln < f32(1.1920929e-07)
    return ite(tiny, u, (k(1) / ln) * u)


def call(c, P, path, names, **kw):
    return summarise(c, P, path, names=names, **kw)


# ------------------------------------------------------------------------------------------ definitions and construction
def check_defs(c, P, jt):
    nm, ty = jt.name, jt.typ
    D_ = DEF % (nm, nm)
    r = call(c, P, '<%s<D> as std::default::Default>::default' % D_, [])
    for f, kind, d in FIELDS[nm]:
        ob_ret(c, 'default', nm + ' definition default', r, f, const_of(kind, d))
    got = r.value(r.ret, ('base', 'jtype'))
    c.ob('default', nm + ' definition type', variant_of(got) == 'E%sJoint' % ty, 'definition has type %s' % E.show(got))
    ob_ret(c, 'default', nm + ' definition', r, 'base.collide_connected', S(TRUE if nm == 'pulley' else FALSE))
    for f in ('user_data', 'body_a', 'body_b'):
        c.ob('default', nm + ' definition ' + f, variant_of(r.value(r.ret, ('base', f))) == 'None', 'default %s is not empty' % f)
    if nm in ('mouse', 'gear'):
        return
    A, Bb = Body(sym('body_a')), Body(sym('body_b'))
    an, aa, ab, ax, ga, gb, rt = (sym(x) for x in ('anchor', 'anchor_a', 'anchor_b', 'axis', 'ground_a', 'ground_b', 'ratio'))

    def lp(b, p): return mulxT(b.xf, p)
    w = {}
    if nm == 'distance':
        ps = ['anchor_a', 'anchor_b']
        ln = smax(length(ab.vec() - aa.vec()), SLOP)
        w = {'local_anchor_a': lp(A, aa.vec()), 'local_anchor_b': lp(Bb, ab.vec()), 'length': ln, 'min_length': ln, 'max_length': ln}
    elif nm == 'pulley':
        ps = ['ground_a', 'ground_b', 'anchor_a', 'anchor_b', 'ratio']
        w = {'ground_anchor_a': ga.vec(), 'ground_anchor_b': gb.vec(), 'local_anchor_a': lp(A, aa.vec()), 'local_anchor_b': lp(Bb, ab.vec()),
             'length_a': length(aa.vec() - ga.vec()), 'length_b': length(ab.vec() - gb.vec()), 'ratio': rt.num()}
    elif nm == 'motor':
        ps = []
        w = {'linear_offset': lp(A, Bb.xf.p), 'angular_offset': Bb.a - A.a}
    else:
        ps = ['anchor'] + (['axis'] if nm in ('prismatic', 'wheel') else [])
        w = {'local_anchor_a': lp(A, an.vec()), 'local_anchor_b': lp(Bb, an.vec())}
        if nm in ('prismatic', 'wheel'):
            w['local_axis_a'] = mulqT(A.xf.q, ax.vec())
        if nm in ('revolute', 'prismatic', 'weld'):
            w['reference_angle'] = Bb.a - A.a
    r = call(c, P, D_ + '::<D>::initialize', ['self', 'body_a', 'body_b'] + ps)
    got = changes(r)
    for x in 'ab':
        v_ = got.pop('self.base.body_' + x, None)
        want = term(('agg', 'std::option::Option', 'Some', (('0', sym('body_' + x).ptr()),)))
        c.ob('initialize', '%s initialize body %s' % (nm, x.upper()), v_ is not None and E.show(v_) == E.show(want), 'definition stores %s' % (E.show(v_) if v_ is not None else 'nothing'))
    expect_changes(c, 'initialize', nm + ' initialize', r, {'self.' + f: x for f, x in w.items()}, ignore=('self.base.body_a', 'self.base.body_b'))
    if nm == 'pulley':
        no_panic(c, 'initialize', nm + ' initialize', r, ~(rt.num() > f32(1.1920929e-07)))
    else:
        no_panic(c, 'initialize', nm + ' initialize', r)


def check_new(c, P, jt):
    nm = jt.name
    d = sym('def')
    derived = 'b2_joint::ToDerivedJoint::as_derived'
    r = call(c, P, T % (nm, nm, 'new'), ['def'], hooks={derived: pure('derived', ret='raw')} if nm == 'gear' else {})
    want = {'m_' + f: value(d, f, kind) for f, kind, _ in FIELDS[nm]}
    for z in ZEROS[nm]:
        want[z] = k(0)
    if nm in ('prismatic', 'wheel'):
        axis = want.pop('m_local_axis_a')
        axis = normalised(axis) if nm == 'prismatic' else axis
        want['m_local_xaxis_a'], want['m_local_yaxis_a'] = axis, crosssv(k(1), axis)
    if nm == 'distance':
        mn = smax(d.num('min_length'), SLOP)
        want.update(m_length=smax(d.num('length'), SLOP), m_min_length=mn, m_max_length=smax(d.num('max_length'), mn))
    if nm == 'mouse':
        want['m_target_a'] = want.pop('m_target')
        want['m_local_anchor_b'] = mulxT(d.xf('base', 'body_b', ('d', 'Some'), '0', 'm_xf'), d.vec('target'))
    if nm == 'pulley':
        want['m_constant'] = d.num('length_a') + d.num('ratio') * d.num('length_b')
    if nm == 'gear':
        gear_new(c, r, d, want)
    ok = ~panics(r) if nm == 'gear' else None
    from .worldlib import peq
    none = lambda *ks: d.is_(0, 2, *ks)
    allowed = none('base', 'body_a') | none('base', 'body_b') | peq(d.ptr('base', 'body_a', ('d', 'Some'), '0'), d.ptr('base', 'body_b', ('d', 'Some'), '0'))
    if nm == 'pulley':
        allowed = allowed | d.num('ratio').eq(0)
    if nm == 'prismatic':
        allowed = allowed | ~(d.num('lower_translation') <= d.num('upper_translation'))
    agree = S(TRUE)
    if nm == 'gear':
        for j in ('joint1', 'joint2'):
            jo, der = d.at(j, ('d', 'Some'), '0'), Obj(E.app('derived', jo_ptr(d, j)))
            kinds = [jo.is_(i, 11, 'base', 'm_type') & der.is_(v, 10) for i, v in ((8, 6), (6, 7))]
            agree = agree & (kinds[0] | kinds[1] | ~(der.is_(6, 10) | der.is_(7, 10) | jo.is_(8, 11, 'base', 'm_type') | jo.is_(6, 11, 'base', 'm_type')))
            allowed = allowed | none(j) | ~(kinds[0] | kinds[1]) | ~jo.is_(2, 3, 'base', 'm_body_b', 'm_type')
    miss = allowed & ~panics(r) & agree
    c.ob('construct', nm + ' unusable definitions are refused', miss.n == FALSE, 'accepted when %s' % E.show(miss.n, 8))
    bad = panics(r) & ~allowed
    c.ob('construct', nm + ' valid definitions are accepted', bad.n == FALSE, 'also fails when %s' % E.show(bad.n, 8))
    for f, x in want.items():
        ob_ret(c, 'construct', nm + ' created from definition', r, f, x, under=ok)
    ob_ret(c, 'construct', nm + ' created from definition', r, 'base.m_collide_connected', d.bool('base', 'collide_connected'))
    ob_ret(c, 'construct', nm + ' created from definition', r, 'base.m_island_flag', S(FALSE))
    for f, src in (('m_type', 'jtype'), ('m_user_data', 'user_data')):
        got = r.value(r.ret, ('base', f))
        c.ob('construct', '%s created from definition %s' % (nm, src), got == d.at('base', src).n, 'joint stores %s' % E.show(got))
    for x in 'ab':
        got = r.value(r.ret, ('base', 'm_body_' + x))
        c.ob('construct', '%s created from definition body %s' % (nm, x.upper()), got == d.ptr('base', 'body_' + x, ('d', 'Some'), '0'), 'joint attaches to %s' % E.show(got))
    expect_changes(c, 'construct', nm + ' construction frame', r, {})
    c.sample('%s: %d constructor outputs' % (nm, len(want)))


def gear_new(c, r, d, want):
    """geometry of the two underlying joints."""
    out = {}
    for j, (lo, hi) in (('joint1', ('c', 'a')), ('joint2', ('d', 'b'))):
        jo = d.at(j, ('d', 'Some'), '0')
        der = Obj(E.app('derived', jo_ptr(d, j)))
        rev, pri = der.is_(6, 10), der.is_(7, 10)
        bad = ~(rev | pri) & panics(r)
        c.ob('construct', 'gear accepts only revolute and prismatic ' + j, (~(rev | pri) & ~panics(r)).n == FALSE, 'other joint types accepted')
        R, Pm = der.at(('d', 'ERevoluteJoint'), '0'), der.at(('d', 'EPrismaticJoint'), '0')
        first, second = Body(jo.at('base', 'm_body_a')), Body(jo.at('base', 'm_body_b'))
        la, lb, ref = ite(rev, R.vec('m_local_anchor_a'), Pm.vec('m_local_anchor_a')), ite(rev, R.vec('m_local_anchor_b'), Pm.vec('m_local_anchor_b')), ite(rev, R.num('m_reference_angle'), Pm.num('m_reference_angle'))
        ax = Pm.vec('m_local_xaxis_a')
        want['m_local_anchor_' + lo], want['m_local_anchor_' + hi] = la, lb
        want['m_reference_angle_' + hi] = ref
        want['m_local_axis_' + lo] = ite(rev, V(0, 0), ax)
        tr = dot(mulqT(first.xf.q, mulq(second.xf.q, Pm.vec('m_local_anchor_b')) + (second.xf.p - first.xf.p)) - Pm.vec('m_local_anchor_a'), ax)
        out[j] = ite(rev, second.a - first.a - R.num('m_reference_angle'), tr)
        got = r.value(r.ret, ('m_body_' + lo,))
        c.ob('construct', 'gear body %s is the first body of %s' % (lo.upper(), j), got == jo.ptr('base', 'm_body_a'), 'gear stores %s' % E.show(got))
        got = r.value(r.ret, ('m_' + j,))
        c.ob('construct', 'gear keeps ' + j, got == d.ptr(j, ('d', 'Some'), '0'), 'gear stores %s' % E.show(got))
        got = r.value(r.ret, ('m_type_' + hi,))
        c.ob('construct', 'gear type of ' + j, got == jo.at('base', 'm_type').n, 'gear stores %s' % E.show(got))
    want['m_constant'] = out['joint1'] + d.num('ratio') * out['joint2']


def jo_ptr(d, j):
    return d.ptr(j, ('d', 'Some'), '0')


# ------------------------------------------------------------------------------------------ accessors, setters, reactions
def world_point(b, p):
    return mulx(b.xf, p)


def check_values(c, P, jt):
    nm = jt.name
    h = sym('inv_dt').num()

    def val(meth, want, ps=(), trait=False):
        path = (J if trait else T) % (nm, nm, meth)
        r = call(c, P, path, ['self'] + list(ps))
        expect_changes(c, 'reads', '%s %s frame' % (nm, meth), r, {})
        no_panic(c, 'reads', '%s %s' % (nm, meth), r)
        ob_ret(c, 'reads', '%s %s' % (nm, meth), r, '', want)
    # anchors in world coordinates
    if nm == 'motor':
        val('get_anchor_a', BA.xf.p, trait=True)
        val('get_anchor_b', BB.xf.p, trait=True)
    else:
        val('get_anchor_a', v('m_target_a') if nm == 'mouse' else world_point(BA, v('m_local_anchor_a')), trait=True)
        val('get_anchor_b', world_point(BB, v('m_local_anchor_b')), trait=True)
    lim = lambda: n('m_lower_impulse') - n('m_upper_impulse')
    force = {'revolute': lambda: v('m_impulse'), 'prismatic': lambda: n('m_impulse.x') * v('m_perp') + (n('m_motor_impulse') + lim()) * v('m_axis'),
             'distance': lambda: (n('m_impulse') + lim()) * v('m_u'), 'weld': lambda: v('m_impulse'),
             'wheel': lambda: n('m_impulse') * v('m_ay') + (n('m_spring_impulse') + lim()) * v('m_ax'),
             'friction': lambda: v('m_linear_impulse'), 'motor': lambda: v('m_linear_impulse'), 'mouse': lambda: v('m_impulse'),
             'pulley': lambda: n('m_impulse') * v('m_u_b'), 'gear': lambda: n('m_impulse') * v('m_jv_ac')}
    torque = {'revolute': lambda: n('m_motor_impulse') + lim(), 'prismatic': lambda: n('m_impulse.y'), 'weld': lambda: n('m_impulse.z'),
              'wheel': lambda: n('m_motor_impulse'), 'friction': lambda: n('m_angular_impulse'), 'motor': lambda: n('m_angular_impulse'),
              'gear': lambda: n('m_impulse') * n('m_jw_a')}
    val('get_reaction_force', h * force[nm](), ['inv_dt'], trait=True)
    val('get_reaction_torque', h * torque.get(nm, lambda: k(0))(), ['inv_dt'], trait=True)
    # plain accessors
    acc = {'local_anchor_a': VEC, 'local_anchor_b': VEC} if nm in ('revolute', 'prismatic', 'distance', 'weld', 'wheel', 'friction') else {}
    acc.update({'revolute': {'reference_angle': NUM, 'motor_speed': NUM, 'max_motor_torque': NUM}, 'prismatic': {'reference_angle': NUM, 'motor_speed': NUM, 'max_motor_force': NUM},
                'distance': {'length': NUM, 'min_length': NUM, 'max_length': NUM, 'stiffness': NUM, 'damping': NUM}, 'weld': {'reference_angle': NUM, 'stiffness': NUM, 'damping': NUM},
                'wheel': {'motor_speed': NUM, 'max_motor_torque': NUM, 'stiffness': NUM, 'damping': NUM}, 'friction': {'max_force': NUM, 'max_torque': NUM},
                'motor': {'linear_offset': VEC, 'angular_offset': NUM, 'max_force': NUM, 'max_torque': NUM, 'correction_factor': NUM},
                'mouse': {'max_force': NUM, 'stiffness': NUM, 'damping': NUM}, 'pulley': {'ground_anchor_a': VEC, 'ground_anchor_b': VEC, 'length_a': NUM, 'length_b': NUM, 'ratio': NUM},
                'gear': {'ratio': NUM}}[nm])
    for f, kind in acc.items():
        val('get_' + f, value(me, 'm_' + f, kind))
    if nm == 'mouse':
        val('get_target', v('m_target_a'))
    if nm in ('revolute', 'prismatic', 'wheel'):
        val('is_limit_enabled', bl('m_enable_limit'))
        val('is_motor_enabled', bl('m_enable_motor'))
        u = 'angle' if nm == 'revolute' else 'translation'
        val('get_lower_limit', n('m_lower_' + u))
        val('get_upper_limit', n('m_upper_' + u))
        val('get_motor_force' if nm == 'prismatic' else 'get_motor_torque', h * n('m_motor_impulse'), ['inv_dt'])
    if nm in ('prismatic', 'wheel'):
        val('get_local_axis_a', v('m_local_xaxis_a'))
        d = world_point(BB, v('m_local_anchor_b')) - world_point(BA, v('m_local_anchor_a'))
        ax = mulq(BA.xf.q, v('m_local_xaxis_a'))
        val('get_joint_translation', dot(d, ax))
        ra, rb = mulq(BA.xf.q, v('m_local_anchor_a') - BA.lc), mulq(BB.xf.q, v('m_local_anchor_b') - BB.lc)
        d = BB.c + rb - (BA.c + ra)
        sp = dot(d, crosssv(BA.w, ax)) + dot(ax, BB.v + crosssv(BB.w, rb) - BA.v - crosssv(BA.w, ra))
        val('get_joint_speed' if nm == 'prismatic' else 'get_joint_linear_speed', sp)
    if nm == 'revolute':
        val('get_joint_angle', BB.a - BA.a - n('m_reference_angle'))
        val('get_joint_speed', BB.w - BA.w)
    if nm == 'wheel':
        val('get_joint_angle', BB.a - BA.a)
        val('get_joint_angular_speed', BB.w - BA.w)
    if nm == 'distance':
        val('get_current_length', length(world_point(BB, v('m_local_anchor_b')) - world_point(BA, v('m_local_anchor_a'))))
    if nm == 'pulley':
        val('get_current_length_a', length(world_point(BA, v('m_local_anchor_a')) - v('m_ground_anchor_a')))
        val('get_current_length_b', length(world_point(BB, v('m_local_anchor_b')) - v('m_ground_anchor_b')))
    if nm == 'gear':
        for j in ('joint1', 'joint2'):
            r = call(c, P, T % (nm, nm, 'get_' + j), ['self'])
            c.ob('reads', 'gear get_' + j, r.ret == me.ptr('m_' + j), 'returns %s' % E.show(r.ret))


def woken(cond, bodies=('a', 'b')):
    w = {}
    for x in bodies:
        b, p = (BA, 'self.base.m_body_a.') if x == 'a' else (BB, 'self.base.m_body_b.')
        g = cond & ~b.static
        w[p + 'm_flags#1'] = b.awake | g
        w[p + 'm_sleep_time'] = ite(g, 0, b.st)
    return w


def check_setters(c, P, jt):
    nm = jt.name

    def eff(meth, ps, want, panic=None, ret=None, trait=False):
        r = call(c, P, (J if trait else T) % (nm, nm, meth), ['self'] + ps)
        expect_changes(c, 'sets', '%s %s' % (nm, meth), r, want)
        no_panic(c, 'sets', '%s %s' % (nm, meth), r, panic)
        if panic is not None:
            miss = panic & ~panics(r)
            c.ob('rejects', '%s %s' % (nm, meth), miss.n == FALSE, 'invalid argument accepted when %s' % E.show(miss.n, 5))
        if ret is not None:
            ob_ret(c, 'sets', '%s %s' % (nm, meth), r, '', ret)
    a, fl, lo, up = sym('x').num(), sym('flag').bool(), sym('lower').num(), sym('upper').num()
    invalid = ~S(E.boolsym(E.app('is_finite', a.n)))

    def plain(f, panic=None):
        eff('set_' + f, ['x'], {'self.m_' + f: a}, panic)

    def waking(f):
        eff('set_' + f, ['x'], dict(woken(~a.eq(n('m_' + f))), **{'self.m_' + f: a}))
    if nm in ('revolute', 'prismatic', 'wheel'):
        u = 'angle' if nm == 'revolute' else 'translation'
        ch = fl ^ bl('m_enable_limit')
        eff('enable_limit', ['flag'], dict(woken(ch), **{'self.m_enable_limit': fl, 'self.m_lower_impulse': zero_when(ch, n('m_lower_impulse')), 'self.m_upper_impulse': zero_when(ch, n('m_upper_impulse'))}))
        ch = ~(lo.eq(n('m_lower_' + u)) & up.eq(n('m_upper_' + u)))
        eff('set_limits', ['lower', 'upper'], dict(woken(ch), **{'self.m_lower_' + u: ite(ch, lo, n('m_lower_' + u)), 'self.m_upper_' + u: ite(ch, up, n('m_upper_' + u)),
            'self.m_lower_impulse': zero_when(ch, n('m_lower_impulse')), 'self.m_upper_impulse': zero_when(ch, n('m_upper_impulse'))}), panic=up < lo)
        eff('enable_motor', ['flag'], dict(woken(fl ^ bl('m_enable_motor')), **{'self.m_enable_motor': fl}))
        waking('motor_speed')
        waking('max_motor_force' if nm == 'prismatic' else 'max_motor_torque')
    if nm in ('distance', 'weld', 'wheel', 'mouse'):
        plain('stiffness')
        plain('damping')
    if nm == 'distance':
        ln = smax(SLOP, a)
        eff('set_length', ['x'], {'self.m_length': ln, 'self.m_impulse': k(0)}, ret=ln)
        ln = clamp(a, SLOP, n('m_max_length'))
        eff('set_min_length', ['x'], {'self.m_min_length': ln, 'self.m_lower_impulse': k(0)}, ret=ln)
        ln = smax(a, n('m_min_length'))
        eff('set_max_length', ['x'], {'self.m_max_length': ln, 'self.m_upper_impulse': k(0)}, ret=ln)
    if nm in ('friction', 'motor'):
        plain('max_force', invalid | (a < 0))
        plain('max_torque', invalid | (a < 0))
    if nm == 'motor':
        plain('correction_factor', invalid | (a < 0) | (a > 1))
        waking('angular_offset')
        x = sym('x').vec()
        same_ = x.x.eq(n('m_linear_offset.x')) & x.y.eq(n('m_linear_offset.y'))
        eff('set_linear_offset', ['x'], dict(woken(~same_), **{'self.m_linear_offset': ite(same_, v('m_linear_offset'), x)}))
    if nm == 'mouse':
        plain('max_force')
        x = sym('x').vec()
        same_ = x.x.eq(n('m_target_a.x')) & x.y.eq(n('m_target_a.y'))
        eff('set_target', ['x'], dict(woken(~same_, ('b',)), **{'self.m_target_a': ite(same_, v('m_target_a'), x)}))
        eff('shift_origin', ['x'], {'self.m_target_a': v('m_target_a') - x}, trait=True)
    if nm == 'pulley':
        x = sym('x').vec()
        eff('shift_origin', ['x'], {'self.m_ground_anchor_a': v('m_ground_anchor_a') - x, 'self.m_ground_anchor_b': v('m_ground_anchor_b') - x}, trait=True)
    if nm == 'gear':
        plain('ratio', invalid)
