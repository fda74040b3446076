from .. import contracts


def run(c):
    c.rule("every filter step computes its difference equation on the buffered samples (spec/p15.cpp)")
    contracts.run(c, ["p15"], floor=3)
