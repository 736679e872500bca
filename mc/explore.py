"""
Deviation bounded depth first exploration of the choices of an execution.

An execution asks its Chooser for every decision. Choice 0 is the default; the
explorer runs the execution again for every alternative at every decision,
with at most `bound` departures from the default (None: no limit, that is the
complete tree).
"""

from mc.env import HarnessError


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []  # (n, chosen, tag)

    def choose(self, n, tag=""):
        if n <= 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise HarnessError(
                    f"replay diverged at choice {i} ({tag}): {c} of {n}"
                )
        else:
            c = 0
        self.trace.append((n, c, tag))
        return c

    @property
    def choices(self):
        return [c for _, c, _ in self.trace]


class RandomChoices:
    """Random outcomes as explorer choices."""

    def __init__(self, chooser, values=(0.25, 0.75), limit=None):
        self.chooser = chooser
        self.values = values

    def random(self):
        return self.values[self.chooser.choose(len(self.values), "random")]

    def randbelow(self, n):
        return self.chooser.choose(n, "randbelow")


def explore(run, bound=None, cap=None, branch=None, shard=None):
    """
    Run `run(chooser)` for every choice sequence within the bound.

    Returns (executions, capped). `branch(tag)` may restrict which decisions
    are explored beyond their default. `shard` (i, n): only the i-th of n parts
    of the tree (the first execution, with default choices, is in all of them).
    """
    stack = [((), 0)]
    executions = 0
    first = True
    while stack:
        if cap is not None and executions >= cap:
            return executions, True
        prefix, used = stack.pop()
        chooser = Chooser(prefix)
        run(chooser)
        executions += 1
        if len(chooser.trace) < len(prefix):
            raise HarnessError("replay diverged: execution shorter than its prefix")
        if [c for _, c, _ in chooser.trace[: len(prefix)]] != list(prefix):
            raise HarnessError("replay diverged: different choices")
        if bound is not None and used >= bound:
            continue
        choices = chooser.choices
        children = []
        for i in range(len(choices) - 1, len(prefix) - 1, -1):
            n, _, tag = chooser.trace[i]
            if branch is not None and not branch(tag):
                continue
            for alt in range(n - 1, 0, -1):
                children.append((tuple(choices[:i]) + (alt,), used + 1))
        if first and shard is not None:
            children = children[shard[0] :: shard[1]]
        first = False
        stack.extend(children)
    return executions, False
