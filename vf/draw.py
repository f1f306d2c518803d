"""Random choices behind every generator, and the search that drives them.

All helpers shrink towards the first / smallest choice.  A case is the list of offsets drawn (a choice sequence); a
failing sequence is reduced by deleting, zeroing and lowering its entries and re-running the generator on the result.
"""
import time


class D:
    """Draws from rnd, or first from the prefix of offsets given; records what was drawn.

    wild: rare deviations (wrong clues and the like) become common.
    """
    wild = False
    calm = False        # rare deviations do not happen at all

    def __init__(self, rnd=None, prefix=()):
        self.rnd, self.prefix, self.log = rnd, prefix, []

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        i = len(self.log)
        if i < len(self.prefix):
            v = min(self.prefix[i], hi - lo)
        elif self.rnd is not None:
            v = self.rnd.randint(0, hi - lo)
        else:
            v = 0
        self.log.append(v)
        return lo + v

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        if num >= den:
            return True
        if self.calm and den >= 12 and num in (1, den - 1):
            return num > 1
        if self.wild and num == 1 and 12 <= den <= 60:
            den = 4
        return self.int(0, den - 1) >= den - num

    def choice(self, seq):
        seq = seq if hasattr(seq, "__getitem__") else list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]

    def big(self, seq):
        """Choice from a long sequence (index drawn in one go)."""
        return seq[self.int(0, len(seq) - 1)]


RandomD = D


def shrink(log, fails, until):
    """Reduce a failing choice sequence. fails(seq) -> the sequence actually used if it still fails, else None."""
    best = list(log)

    def better(x):
        return x is not None and (len(x), x) < (len(best), best)

    def attempt(seq):
        nonlocal best
        if time.monotonic() > until:
            return False
        got = fails(seq)
        if better(got):
            best = got
            return True
        return False

    changed = True
    while changed and time.monotonic() < until:
        changed = False
        k = max(1, len(best) // 2)
        while k >= 1:                       # delete blocks
            i = len(best) - k
            while i >= 0:
                if i + k <= len(best) and attempt(best[:i] + best[i + k:]):
                    changed = True
                i -= max(1, k // 2)
            k //= 2
        k = max(1, len(best) // 2)
        while k >= 1:                       # zero blocks
            for i in range(0, len(best), k):
                if any(best[i:i + k]) and attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                    changed = True
            k //= 2
        i = 0
        while i < len(best):                # lower single values
            for v in (best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    changed = True
            i += 1
        if time.monotonic() > until:
            break
    return best
