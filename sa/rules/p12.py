from .. import contracts


def run(c):
    c.rule("every operation of Flags computes the index-wise boolean operation of its reference semantics (spec/p12.cpp)")
    contracts.run(c, ["p12"], floor=13)
