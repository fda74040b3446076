from .. import contracts, pycontracts


def run(c):
    c.rule("every conversion computes its reference semantics (spec/p14.cpp)")
    contracts.run(c, ["p14"], floor=28)
    c.rule("the script helpers compute their reference semantics (spec/py/matrix_util.py)")
    pycontracts.run(c, ["matrix_util"], floor=30)
