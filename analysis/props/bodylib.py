"""Vocabulary for the body specifications."""
from ..spec import *

AWAKE, AUTOSLEEP, BULLET, FIXROT, ENABLED, TOI, ISLAND = 1, 2, 3, 4, 5, 6, 0
STATIC, KINEMATIC, DYNAMIC = 0, 1, 2
B = 'b2_body::B2body::<D>::'


class Body:
    def __init__(self, o):
        self.o = o
        self.type = lambda i: o.is_(i, 3, 'm_type')
        self.static, self.kinematic, self.dynamic = (self.type(i) for i in range(3))
        self.flag = lambda b: o.flag(b, 'm_flags')
        self.awake = self.flag(AWAKE)
        self.v, self.w = o.vec('m_linear_velocity'), o.num('m_angular_velocity')
        self.f, self.t = o.vec('m_force'), o.num('m_torque')
        self.m, self.invm, self.i, self.invi = (o.num(x) for x in ('m_mass', 'm_inv_mass', 'm_i', 'm_inv_i'))
        self.st = o.num('m_sleep_time')
        s = o.at('m_sweep')
        self.lc, self.c0, self.c, self.a0, self.a, self.alpha0 = s.vec('local_center'), s.vec('c0'), s.vec('c'), s.num('a0'), s.num('a'), s.num('alpha0')
        self.xf = o.xf('m_xf')
