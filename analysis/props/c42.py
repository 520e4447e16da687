"""Distance joint: complete specification of the three solver stages."""
from .jointlib import *


def check(c):
    stage_rules(c)
    check_joint(c, c.P, Distance)
