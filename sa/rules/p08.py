"""P08: a device integrates only valid, bounded controls and publishes the result."""
from .. import contracts


def run(c):
    c.rule("every operation of the device computes its reference semantics (spec/p08.cpp); a periodic call may raise anything")
    contracts.run(c, ["p08"], opts={"*": {"emit": ["run"], "mayfail": ["run"], "opaque": ["run"]}}, floor=19)
