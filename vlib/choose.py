"""Choice sequences: every random decision of a generator is one bounded integer, so a case
is a list of integers - replayable and shrinkable (0 is always the simplest choice)."""
import random


class Exhausted(Exception):
    pass


class Chooser:
    def __init__(self, seed=None, choices=None, limit=20000):
        self.rng = random.Random(seed) if choices is None else None
        self.src, self.pos, self.out, self.limit = choices, 0, [], limit

    def raw(self, n, draw=None):
        """integer in [0, n)"""
        if len(self.out) >= self.limit:
            raise Exhausted()
        if self.rng is not None:
            v = draw() if draw else self.rng.randrange(n)
        elif self.pos < len(self.src):
            v = self.src[self.pos]
            self.pos += 1
            if not 0 <= v < n:
                v = v % n if v > 0 else 0
        else:
            v = 0
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; False is simplest"""
        if p <= 0 or p >= 1:
            return p >= 1
        return bool(self.raw(2, lambda: int(self.rng.random() < p)))

    def choice(self, seq):
        return seq[self.raw(len(seq))]

    def weighted(self, pairs):
        """pairs [(weight, x)]; the first is the simplest"""
        pairs = [p for p in pairs if p[0] > 0]

        def draw():
            t = self.rng.random() * sum(w for w, _ in pairs)
            for i, (w, _) in enumerate(pairs):
                t -= w
                if t < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.raw(len(pairs), draw)][1]

    def sample(self, seq, k):
        seq = list(seq)
        return [seq.pop(self.raw(len(seq))) for _ in range(min(k, len(seq)))]

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def rbytes(self, n):
        """n bytes from one choice"""
        return random.Random(self.int(0, 9999)).randbytes(n)

    def bytes(self, lo, hi):
        n = self.int(lo, hi)
        return bytes(self.raw(256) for _ in range(n))


def shrink(choices, still_fails, budget):
    """Greedy choice-sequence shrinking.  still_fails(list) -> normalised list or None.
    budget() -> False when time is up."""
    best = choices

    def attempt(c):
        nonlocal best
        if not budget():
            return False
        r = still_fails(c)
        if r is not None and (len(r), r) < (len(best), best):
            best = r
            return True
        return False

    improved = True
    while improved and budget():
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0 and budget():
                if i + size <= len(best) and attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= max(1, size // 2)
        for size in (16, 4, 1):
            i = 0
            while i < len(best) and budget():
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
        for i in range(len(best)):
            if i >= len(best) or not budget():
                break
            lo, hi = 0, best[i]
            while lo < hi:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
                if not budget():
                    break
    return best
