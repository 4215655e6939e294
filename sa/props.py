"""The properties as obligations over the analysed code."""
from oblig import *
from facts import cmp_cond

PROPS = {}


def prop(pid, **opts):
    def deco(f):
        f.opts = opts
        PROPS[pid] = f
        return f
    return deco


import props_core  # noqa: E402,F401
import props_track  # noqa: E402,F401
import props_misc  # noqa: E402,F401
import props_state  # noqa: E402,F401
import props_midi, props_read  # noqa: E402,F401
import props_more  # noqa: E402,F401
