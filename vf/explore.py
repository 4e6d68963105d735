"""Choices of a driver: random, or all of them (depth first, by replaying prefixes)."""
import random
from vf import api


class RandomChoice:
    def __init__(self, rng):
        self.rng = rng

    def __call__(self, n):
        return self.rng.randrange(n)

    def pick(self, seq):
        return seq[self(len(seq))]


class PrefixChoice:
    def __init__(self, prefix):
        self.prefix = prefix
        self.made = []  # (choice, n)

    def __call__(self, n):
        k = len(self.made)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise api.Machinery("the code under test is not deterministic: choice %d of %d" % (c, n))
        self.made.append((c, n))
        return c

    def pick(self, seq):
        return seq[self(len(seq))]


def all_choices(run, limit):
    """run(choice) -> result, for every sequence of choices (at most `limit` runs). Yields results; returns exhaustiveness."""
    prefix = []
    n = 0
    while n < limit:
        ch = PrefixChoice(prefix)
        yield run(ch)
        n += 1
        made = ch.made
        while made and made[-1][0] + 1 >= made[-1][1]:
            made.pop()
        if not made:
            yield None  # complete
            return
        prefix = [c for c, _ in made[:-1]] + [made[-1][0] + 1]


def dedupe(traces):
    seen = set()
    res = []
    for t in traces:
        k = api.canon(t)
        if k not in seen:
            seen.add(k)
            res.append(t)
    return res
