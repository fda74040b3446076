"""P19: the script meta-tasks wire features, gains, tasks and point modifiers as stated."""
from .. import pycontracts


def run(c):
    pycontracts.run(c, ["meta_tasks"], 700)
