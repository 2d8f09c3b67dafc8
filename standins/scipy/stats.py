"""Binomial distribution, as far as the repository's scripts use it."""
import math


class _Binom:
    def cdf(self, k, n, p):
        return math.fsum(math.comb(n, i) * p**i * (1 - p) ** (n - i) for i in range(0, min(int(k), n) + 1))


binom = _Binom()
