"""Shared helpers of the independent reference models. Nothing here imports the code under test."""

import os
import random
import sys

TABLES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables")


def table(name):
    """Rows of a frozen, reviewed table as tuples."""

    with open(os.path.join(TABLES, name + ".tsv"), encoding="utf8") as f:
        return [tuple(line.rstrip("\n").split("\t")) for line in f if line.rstrip("\n")]


def pick_int(r, top=10**9):
    """An integer with interesting zeros, up to `top`."""

    k = r.random()
    digits = r.randint(1, len(str(top - 1)))
    if k < 0.35:
        value = r.randint(10**(digits - 1), 10**digits - 1)
    elif k < 0.85:
        # sparse: every digit may be zero
        value = int("".join(r.choice("0001") if r.random() < 0.55 else r.choice("123456789") for _ in range(digits)))
    elif k < 0.93:
        value = r.randint(1, 9) * 10**r.randint(0, digits - 1)
    else:
        value = r.randint(0, 120)
    return value % top


class Dealer(random.Random):
    """A random source whose choices come from shuffled decks, one per place in a model that chooses.

    Each place deals every row of its table (every hour, minute, day ...) once before any comes again, and the workers of one job start at
    different points of the same deck, so that small domains and large tables are gone through instead of sampled with gaps.
    """

    LIMIT = 20000

    def __init__(self, seed, index=0, workers=1, shared=0):
        super().__init__(seed)
        self.part = (index, workers)
        self.shared = shared
        self.decks = {}

    def _deal(self, frame, size):
        key = (frame.f_code.co_filename, frame.f_code.co_firstlineno, frame.f_lasti, size)
        deck = self.decks.get(key)
        if deck is None:
            index, workers = self.part
            order = list(range(size))
            random.Random("%s %s" % (self.shared, key)).shuffle(order)
            start = index * size // workers
            deck = self.decks[key] = [order[start:] + order[:start], 0]
        order, at = deck
        if at == size:
            super().shuffle(order)
            at = 0
        deck[1] = at + 1
        return order[at]

    def choice(self, seq):
        if not 1 < len(seq) <= self.LIMIT:
            return super().choice(seq)
        return seq[self._deal(sys._getframe(1), len(seq))]

    def randint(self, a, b):
        if not 1 < b - a + 1 <= self.LIMIT:
            return super().randint(a, b)
        return a + self._deal(sys._getframe(1), b - a + 1)
