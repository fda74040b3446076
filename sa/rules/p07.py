"""P07: robot description."""
from .. import contracts


def run(c):
    c.rule("every accessor, modifier and conversion of the robot description computes its reference semantics (spec/p07.cpp); before initialisation each command changes nothing")
    contracts.run(c, ["p07"], opts={"*": {"opaque": ("get_parameter", "set_parameter"), "keepstate": True}}, floor=60)
