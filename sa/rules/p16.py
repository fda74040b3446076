from .. import contracts


def run(c):
    c.rule("every limiter, control law, gain and switching element computes its reference semantics (spec/p16.cpp)")
    contracts.run(c, ["p16"], floor=40)
