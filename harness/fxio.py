"""Exact conversion between doubles and the specification's fixed-point integers."""
from fractions import Fraction

S = 10 ** 50


def fx(x, scale=S):
    """Nearest fixed-point integer of a finite float/int/Fraction (exact rational arithmetic)."""
    fr = Fraction(x) * scale
    n, m = fr.numerator, fr.denominator
    q, r = divmod(n, m)
    return q + (1 if 2 * r >= m else 0)


def unfx(n, scale=S):
    return float(Fraction(n, scale))
