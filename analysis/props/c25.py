"""Joint setters."""
from .jointapi import *


def check(c):
    c.rule('sets', 'the setter changes exactly the documented parameter, wakes the bodies exactly when documented and the value really changes, resets exactly the documented accumulated impulses, and changes nothing else')
    c.rule('rejects', 'invalid arguments are rejected')
    for jt in ALL:
        check_setters(c, c.P, jt)
