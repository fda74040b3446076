from .. import contracts


def run(c):
    c.rule("every operation of Stopwatch computes its reference semantics (spec/p06.cpp)")
    contracts.run(c, ["p06"], only=lambda pr: not pr.name.startswith("StopwatchException"), floor=19)
