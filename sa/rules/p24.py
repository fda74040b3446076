from .. import contracts


def run(c):
    c.rule("every vector or matrix operator computes its reference semantics (spec/p24.cpp)")
    contracts.run(c, ["p24"], floor=50)
