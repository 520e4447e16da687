"""Contact constraint records, warm starting and impulse storage."""
from .contactlib import *


def check(c):
    c.rule('stage', 'the stage, specialised to each number of contact points, computes exactly the specified value for every solver record, body velocity/position and stored impulse it changes, and changes nothing else')
    create(c, c.P, 'stage')
    warm_start(c, c.P, 'stage')
    store_impulses(c, c.P, 'stage')
