from .. import contracts


def run(c):
    c.rule("every operation of MultiBound computes its reference semantics (value-numbering of both, spec/p13.cpp)")
    contracts.run(c, ["p13"], only=lambda pr: not pr.name.startswith("Exception"), floor=15)
