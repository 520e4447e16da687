"""Contact position correction (discrete and time-of-impact)."""
from .contactlib import *


def check(c):
    c.rule('stage', 'the stage, specialised to each number of contact points, computes exactly the specified value for every solver record, body velocity/position and stored impulse it changes, and changes nothing else')
    position(c, c.P, 'stage', False)
    position(c, c.P, 'stage', True)
