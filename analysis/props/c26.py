"""Vector, matrix, rotation, transform and sweep algebra."""
from ..spec import *

M = 'b2_math::'
EPS = f32(1.1920929e-7)
PI = f32(3.14159265359)


def m2(o): return {'ex': o.vec('ex'), 'ey': o.vec('ey')}
def v3(o): return (o.num('x'), o.num('y'), o.num('z'))
def d3(v): return {'x': v[0], 'y': v[1], 'z': v[2]}
def dot3(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross3(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def recip(d): return ite(d.eq(0), d, 1 / d)


def check(c):
    P = c.P
    c.rule('algebra', 'the operation returns (or stores) exactly the value of its algebraic definition for all operands, changes nothing else and does not panic')

    def f(name, names, ret=None, **kw):
        return method(c, 'algebra', P, name if name.startswith('<') or '::<' in name else M + name, names, ret=ret, label=name.replace('b2_math::', '').replace('std::ops::', ''), **kw)
    a, b, v, s_ = sym('a'), sym('b'), sym('v'), sym('self')
    x, y, z, s = sym('x').num(), sym('y').num(), sym('z').num(), sym('s').num()
    av, bv, vv, sv = a.vec(), b.vec(), v.vec(), s_.vec()
    zero = V(k(0), k(0))
    # vectors
    f('B2vec2::new', ['x', 'y'], V(x, y))
    f('B2vec2::zero', [], zero)
    f('<b2_math::B2vec2 as std::default::Default>::default', [], zero)
    f('B2vec2::set_zero', ['self'], want={'self': zero})
    f('B2vec2::set', ['self', 'x', 'y'], want={'self': V(x, y)})
    i = sym('i').num()
    f('B2vec2::get', ['self', 'i'], ite(i.eq(0), sv.x, sv.y), panic=(i < 0) | ~(i < 2))
    f('B2vec2::set_by_index', ['self', 'i', 'x'], want={'self.x': ite(i.eq(0), x, sv.x), 'self.y': ite(i.eq(0), sv.y, x)}, panic=(i < 0) | ~(i < 2))
    f('B2vec2::length', ['self'], length(sv))
    f('B2vec2::length_squared', ['self'], dot(sv, sv))
    small = length(sv) < EPS
    f('B2vec2::normalize', ['self'], ite(small, 0, length(sv)), want={'self.x': ite(small, sv.x, sv.x / length(sv)), 'self.y': ite(small, sv.y, sv.y / length(sv))})
    f('B2vec2::skew', ['self'], V(-sv.y, sv.x))
    f('<b2_math::B2vec2 as std::ops::Neg>::neg', ['self'], V(-sv.x, -sv.y))
    for op, fnm, g in (('AddAssign', 'add_assign', sv + vv), ('SubAssign', 'sub_assign', sv - vv)):
        f('<b2_math::B2vec2 as std::ops::%s>::%s' % (op, fnm), ['self', 'v'], want={'self': g})
    f('<b2_math::B2vec2 as std::ops::MulAssign<f32>>::mul_assign', ['self', 's'], want={'self': V(sv.x * s, sv.y * s)})
    f('<b2_math::B2vec2 as std::ops::Add>::add', ['a', 'b'], av + bv)
    f('<b2_math::B2vec2 as std::ops::Sub>::sub', ['a', 'b'], av - bv)
    f('b2_math::<impl std::ops::Mul<b2_math::B2vec2> for f32>::mul', ['s', 'a'], V(s * av.x, s * av.y))
    f('b2_dot', ['a', 'b'], dot(av, bv))
    f('b2_cross', ['a', 'b'], cross(av, bv))
    f('b2_cross_vec_by_scalar', ['a', 's'], crossvs(av, s))
    f('b2_cross_scalar_by_vec', ['s', 'a'], crosssv(s, av))
    eq = av.x.eq(bv.x) & av.y.eq(bv.y)
    f('is_equal', ['a', 'b'], eq)
    f('not_equal', ['a', 'b'], ~eq)
    f('<b2_math::B2vec2 as std::cmp::PartialEq>::eq', ['a', 'b'], eq)
    f('b2_distance_vec2', ['a', 'b'], length(av - bv))
    f('b2_distance_vec2_squared', ['a', 'b'], dot(av - bv, av - bv))
    f('b2_abs', ['x'], sabs(x))
    f('b2_abs_vec2', ['a'], V(sabs(av.x), sabs(av.y)))
    f('b2_min_vec2', ['a', 'b'], V(smin(av.x, bv.x), smin(av.y, bv.y)))
    f('b2_max_vec2', ['a', 'b'], V(smax(av.x, bv.x), smax(av.y, bv.y)))
    lo, hi = sym('lo').vec(), sym('hi').vec()
    f('b2_clamp_vec2', ['a', 'lo', 'hi'], V(clamp(av.x, lo.x, hi.x), clamp(av.y, lo.y, hi.y)))
    f('b2_sqrt', ['x'], sqrt(x))
    f('b2_atan2', ['y', 'x'], fn('atan2', y, x))
    # 3-vectors
    a3, b3, s3 = v3(a), v3(b), v3(s_)
    f('B2Vec3::new', ['x', 'y', 'z'], d3((x, y, z)))
    f('B2Vec3::zero', [], d3((k(0),) * 3))
    f('<b2_math::B2Vec3 as std::default::Default>::default', [], d3((k(0),) * 3))
    f('B2Vec3::set_zero', ['self'], want={'self': d3((k(0),) * 3)})
    f('B2Vec3::set', ['self', 'x', 'y', 'z'], want={'self': d3((x, y, z))})
    f('<b2_math::B2Vec3 as std::ops::Neg>::neg', ['a'], d3([-q for q in a3]))
    f('<b2_math::B2Vec3 as std::ops::AddAssign>::add_assign', ['self', 'b'], want={'self': d3([p + q for p, q in zip(s3, b3)])})
    f('<b2_math::B2Vec3 as std::ops::SubAssign>::sub_assign', ['self', 'b'], want={'self': d3([p - q for p, q in zip(s3, b3)])})
    f('<b2_math::B2Vec3 as std::ops::MulAssign<f32>>::mul_assign', ['self', 's'], want={'self': d3([p * s for p in s3])})
    f('<b2_math::B2Vec3 as std::ops::Add>::add', ['a', 'b'], d3([p + q for p, q in zip(a3, b3)]))
    f('<b2_math::B2Vec3 as std::ops::Sub>::sub', ['a', 'b'], d3([p - q for p, q in zip(a3, b3)]))
    f('b2_math::<impl std::ops::Mul<b2_math::B2Vec3> for f32>::mul', ['s', 'a'], d3([s * p for p in a3]))
    f('b2_dot_vec3', ['a', 'b'], dot3(a3, b3))
    f('b2_cross_vec3', ['a', 'b'], d3(cross3(a3, b3)))
    # matrices (columns ex, ey)
    A, B_, SM = m2(a), m2(b), m2(s_)

    def mul(m, w): return V(m['ex'].x * w.x + m['ey'].x * w.y, m['ex'].y * w.x + m['ey'].y * w.y)
    def mulT(m, w): return V(dot(m['ex'], w), dot(m['ey'], w))
    f('B2Mat22::new', ['a', 'b'], {'ex': av, 'ey': bv})
    c11, c12, c21, c22 = [sym(q).num() for q in ('p', 'q', 'r', 't')]
    f('B2Mat22::new_scalars', ['p', 'q', 'r', 't'], {'ex': V(c11, c21), 'ey': V(c12, c22)})
    f('B2Mat22::set', ['self', 'a', 'b'], want={'self': {'ex': av, 'ey': bv}})
    f('B2Mat22::set_identity', ['self'], want={'self': {'ex': V(k(1), k(0)), 'ey': V(k(0), k(1))}})
    f('B2Mat22::set_zero', ['self'], want={'self': {'ex': zero, 'ey': zero}})
    f('B2Mat22::zero', [], {'ex': zero, 'ey': zero})
    e, g = SM['ex'], SM['ey']
    d = recip(e.x * g.y - g.x * e.y)
    f('B2Mat22::get_inverse', ['self'], {'ex': V(d * g.y, -d * e.y), 'ey': V(-d * g.x, d * e.x)})
    f('B2Mat22::solve', ['self', 'b'], V(d * (g.y * bv.x - g.x * bv.y), d * (e.x * bv.y - e.y * bv.x)))
    f('<b2_math::B2Mat22 as std::ops::Add>::add', ['a', 'b'], {'ex': A['ex'] + B_['ex'], 'ey': A['ey'] + B_['ey']})
    f('b2_mul', ['a', 'v'], mul(A, vv))
    f('b2_mul_t', ['a', 'v'], mulT(A, vv))
    f('b2_mul_mat22', ['a', 'b'], {'ex': mul(A, B_['ex']), 'ey': mul(A, B_['ey'])})
    f('b2_mul_t_mat22', ['a', 'b'], {'ex': mulT(A, B_['ex']), 'ey': mulT(A, B_['ey'])})
    f('b2_abs_mat22', ['a'], {kk: V(sabs(w.x), sabs(w.y)) for kk, w in A.items()})
    ex, ey, ez = [v3(s_.at(q)) for q in ('ex', 'ey', 'ez')]
    ax, ay, az = [v3(a.at(q)) for q in ('ex', 'ey', 'ez')]
    f('B2Mat33::new', ['a', 'b', 'v'], {'ex': d3(a3), 'ey': d3(b3), 'ez': d3(v3(v))})
    f('B2Mat33::zero', [], {q: d3((k(0),) * 3) for q in ('ex', 'ey', 'ez')})
    f('B2Mat33::set_zero', ['self'], want={'self': {q: d3((k(0),) * 3) for q in ('ex', 'ey', 'ez')}})
    det = recip(dot3(ex, cross3(ey, ez)))
    f('B2Mat33::solve33', ['self', 'b'], d3((det * dot3(b3, cross3(ey, ez)), det * dot3(ex, cross3(b3, ez)), det * dot3(ex, cross3(ey, b3)))))
    d = recip(ex[0] * ey[1] - ey[0] * ex[1])
    f('B2Mat33::solve22', ['self', 'b'], V(d * (ey[1] * bv.x - ey[0] * bv.y), d * (ex[0] * bv.y - ex[1] * bv.x)))
    f('B2Mat33::get_inverse22', ['self', 'm'], want={'m': {'ex': d3((d * ey[1], -d * ex[1], k(0))), 'ey': d3((-d * ey[0], d * ex[0], k(0))), 'ez': d3((k(0),) * 3)}})
    # symmetric inverse: for a symmetric matrix the adjugate over the determinant
    a11, a12, a13, a22, a23, a33 = ex[0], ey[0], ez[0], ey[1], ez[1], ez[2]
    m12, m13, m23 = det * (a13 * a23 - a12 * a33), det * (a12 * a23 - a13 * a22), det * (a13 * a12 - a11 * a23)
    f('B2Mat33::get_sym_inverse33', ['self', 'm'], want={'m': {
        'ex': d3((det * (a22 * a33 - a23 * a23), m12, m13)), 'ey': d3((m12, det * (a11 * a33 - a13 * a13), m23)),
        'ez': d3((m13, m23, det * (a11 * a22 - a12 * a12)))}})
    f('b2_mul_mat33', ['a', 'v'], d3([ax[q] * v3(v)[0] + ay[q] * v3(v)[1] + az[q] * v3(v)[2] for q in range(3)]))
    f('b2_mul22', ['a', 'v'], V(ax[0] * vv.x + ay[0] * vv.y, ax[1] * vv.x + ay[1] * vv.y))
    # rotations and transforms
    aq, bq, sq = a.rot(), b.rot(), s_.rot()
    f('B2Rot::new', ['x'], rot(x))
    f('B2Rot::set', ['self', 'x'], want={'self': rot(x)})
    f('B2Rot::set_identity', ['self'], want={'self': Q(k(0), k(1))})
    f('B2Rot::get_angle', ['self'], fn('atan2', sq.s, sq.c))
    f('B2Rot::get_xaxis', ['self'], V(sq.c, sq.s))
    f('B2Rot::get_yaxis', ['self'], V(-sq.s, sq.c))
    f('b2_mul_rot', ['a', 'b'], qmul(aq, bq))
    f('b2_mul_t_rot', ['a', 'b'], qmulT(aq, bq))
    f('b2_mul_rot_by_vec2', ['a', 'v'], mulq(aq, vv))
    f('b2_mul_t_rot_by_vec2', ['a', 'v'], mulqT(aq, vv))
    ax_, bx_ = a.xf(), b.xf()
    f('B2Transform::new', ['v', 'a'], X(vv, aq))
    f('B2Transform::set_identity', ['self'], want={'self': X(zero, Q(k(0), k(1)))})
    f('B2Transform::set', ['self', 'v', 'x'], want={'self': X(vv, rot(x))})
    f('b2_mul_transform_by_vec2', ['a', 'v'], mulx(ax_, vv))
    f('b2_mul_t_transform_by_vec2', ['a', 'v'], mulxT(ax_, vv))
    f('b2_mul_transform', ['a', 'b'], X(mulq(ax_.q, bx_.p) + ax_.p, qmul(ax_.q, bx_.q)))
    f('b2_mul_t_transform', ['a', 'b'], X(mulqT(ax_.q, bx_.p - ax_.p), qmulT(ax_.q, bx_.q)))
    # sweeps
    w = s_
    c0, c1, a0, a1, lc, al = w.vec('c0'), w.vec('c'), w.num('a0'), w.num('a'), w.vec('local_center'), w.num('alpha0')

    def at(t):
        q = rot((1 - t) * a0 + t * a1)
        return X((1 - t) * c0 + t * c1 - mulq(q, lc), q)
    beta = sym('beta').num()
    for n in ('B2Sweep::get_transform', 'b2_sweep_get_transform'):
        f(n, ['self', 'xf', 'beta'], want={'xf': at(beta)})
    t = (beta - al) / (1 - al)
    for n in ('B2Sweep::advance', 'b2_sweep_advance'):
        f(n, ['self', 'beta'], want={'self.c0': c0 + t * (c1 - c0), 'self.a0': a0 + t * (a1 - a0), 'self.alpha0': beta}, panic=~(al < 1))
    turn = 2 * PI * fn('floor', a0 / (2 * PI))
    for n in ('B2Sweep::normalize', 'b2_sweep_normalize'):
        f(n, ['self'], want={'self.a0': a0 - turn, 'self.a': a1 - turn})
