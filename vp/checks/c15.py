"""C15: see vp/area.py."""

import functools

from vp import area
from vp.area import ASSUMPTIONS, RULE, plan, setup      # noqa: F401

PID = 'C15'
# Rules that even the recipe breaks seldom (default: 8 times)
RARE = {}


def REQUIRE(tier):
    return area.require(PID, RARE, tier)


case = functools.partial(area.case, PID)
