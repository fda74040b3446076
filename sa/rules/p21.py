from .. import contracts


def run(c):
    c.rule("every reader of text computes its reference semantics (spec/p21.cpp)")
    contracts.run(c, ["p21"], floor=5)
