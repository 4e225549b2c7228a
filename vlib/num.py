"""Exact mapping of numbers to the domains of the Dataflow specification."""
from fractions import Fraction

P = 40961
J = next(x for x in range(2, P // 2 + 1) if x * x % P == P - 1)


def _real(x):
    if isinstance(x, Fraction):
        fr = x
    else:
        x = float(x) if not isinstance(x, int) else x
        if isinstance(x, int):
            return x % P
        if x != x or x in (float("inf"), float("-inf")):
            raise OverflowError
        fr = Fraction(*x.as_integer_ratio())
    return fr.numerator * pow(fr.denominator, -1, P) % P


def field(x):
    """A dyadic (complex) number as an element of Z_P (j mapped to J)."""
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, complex):
        return (_real(x.real) + J * _real(x.imag)) % P
    return _real(x)


LIMIT = 1 << 28


class TooBig(Exception):
    pass


def integer(x):
    """An exact integer of TLC's range."""
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, complex):
        if x.imag:
            raise ValueError(f"not an integer: {x}")
        x = x.real
    if isinstance(x, float) and (x != x or abs(x) > 1e15):
        raise TooBig
    i = int(x)
    if i != x:
        raise ValueError(f"not an integer: {x}")
    if abs(i) > LIMIT:
        raise TooBig
    return i


def val(x, m):
    return field(x) if m else integer(x)
