"""P20: periodic and scheduled calls."""
from .. import contracts, pycontracts


def run(c):
    c.rule("every operation of the periodic call table computes its reference semantics (spec/p20.cpp)")
    contracts.run(c, ["p20"], opts={"Sequencer::trigger": {"emit": ["operator()"]}}, floor=18)
    c.rule("script events and the interruptible loop behave as their references (spec/py/schedule.py)")
    pycontracts.run(c, ["schedule"], floor=110)
