"""Choice-sequence generation with integrated shrinking.

A generator is a function of a Source.  Every random decision is one bounded
integer drawn from it and recorded; replaying the recorded integers rebuilds
the case, and shrinking edits the integers (delete blocks, zero blocks, lower
single values) and regenerates.  By convention smaller draws mean simpler.
"""
import random, time


class Overrun(Exception):
    pass


class Source:
    def __init__(self, seed=None, choices=None, limit=60000):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.out = []
        self.limit = limit
        self.labels = {}

    def below(self, n):
        """Uniform integer in [0, n)."""
        k = len(self.out)
        if k >= self.limit:
            raise Overrun()
        if self.given is not None:
            v = self.given[k] if k < len(self.given) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n) if n < (1 << 50) else self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        """Integer in [lo, hi]; shrinks towards lo (or towards 0 if inside)."""
        if lo < 0 <= hi:
            v = self.below(hi - lo + 1)
            return v if v <= hi else hi - v      # 0..hi, then -1, -2, ...
        return lo + self.below(hi - lo + 1)

    def p(self, prob):
        return self.below(1000) >= 1000 - prob * 1000

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def many(self, lo, hi, avg=None):
        """Iterate between lo and hi times; shrinks by dropping iterations."""
        if avg is None:
            avg = (lo + hi) / 2
        stop = 1.0 / (max(avg - lo, 0.01) + 1)
        n = 0
        while n < hi:
            if n >= lo:
                # 0 = stop is the simple choice
                if self.below(1000) < stop * 1000:
                    return
            yield n
            n += 1

    def subset(self, seq, prob=0.5):
        return [x for x in seq if self.p(prob)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def text(self, alphabet, lo, hi, avg=None):
        return "".join(self.pick(alphabet) for _ in self.many(lo, hi, avg))

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


def shrink(choices, fails, budget_s=60, max_evals=4000):
    """Smallest choice list found for which fails(choices) is truthy.

    fails returns the list actually consumed (normalised) or None."""
    deadline = time.monotonic() + budget_s
    evals = [0]
    best = list(choices)

    def key(c):
        return (len(c), c)

    def attempt(c):
        nonlocal best
        if time.monotonic() > deadline or evals[0] >= max_evals:
            raise TimeoutError
        evals[0] += 1
        r = fails(c)
        if r is not None and key(r) < key(best):
            best = list(r)
            return True
        return False
    try:
        improved = True
        while improved:
            improved = False
            for size in (256, 64, 16, 8, 4, 3, 2, 1):
                i = len(best) - size
                while i >= 0:
                    c = best[:i] + best[i + size:]
                    if attempt(c):
                        improved = True
                        i = min(i, len(best)) - size
                    else:
                        # deleting a group often needs its counter lowered
                        i -= max(1, size // 2) if size > 4 else 1
            for size in (32, 8, 4, 2, 1):
                for i in range(0, max(len(best) - size + 1, 0), size):
                    if any(best[i:i + size]):
                        if attempt(best[:i] + [0] * size + best[i + size:]):
                            improved = True
            i = 0
            while i < len(best):
                lo, hi = 0, best[i]
                while lo < hi:
                    mid = (lo + hi) // 2
                    if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        hi = mid
                    else:
                        lo = mid + 1
                i += 1
    except TimeoutError:
        pass
    return best, evals[0]
