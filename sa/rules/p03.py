"""P03: attaching and detaching elements."""
from .. import contracts


def run(c):
    c.rule("every operation that stores or drops an element keeps the declared dependencies in step (spec/p03.cpp, spec/p09.cpp)")
    contracts.run(c, ["p03", "p09"], floor=55)
