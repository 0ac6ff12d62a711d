"""Independent exact definitions (integers and fractions)."""
from fractions import Fraction as Fr
from math import factorial, cos, sin, sqrt
import functools


def orders(nmax):
    return [(m, n) for n in range(nmax + 1) for m in range(-n, n + 1, 2)]


def osa(m, n):
    return (n*(n + 2) + m)//2


def noll(m, n):
    r = n % 4
    zero = (m > 0 and r in (0, 1)) or (m < 0 and r in (2, 3))
    return n*(n + 1)//2 + abs(m) + (0 if zero else 1)


def fringe(m, n):
    return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 if m < 0 else 0)


@functools.lru_cache(maxsize=None)
def radial_coeffs(n, m):
    """{power: exact integer coefficient} of R_n^|m|."""
    m = abs(m)
    return {n - 2*k: (-1)**k*(factorial(n - k)//(factorial(k)*factorial((n + m)//2 - k)*factorial((n - m)//2 - k))) for k in range((n - m)//2 + 1)}


@functools.lru_cache(maxsize=None)
def radial_exact(m, n, r):
    """Exact value at a fraction r."""
    return sum(c*r**p for p, c in radial_coeffs(n, abs(m)).items())


@functools.lru_cache(maxsize=None)
def radial_dr_exact(m, n, r):
    return sum(c*p*r**(p - 1) for p, c in radial_coeffs(n, abs(m)).items() if p > 0)


def R(m, n, r):
    return float(radial_exact(abs(m), n, Fr(float(r))))


def dR(m, n, r):
    return float(radial_dr_exact(abs(m), n, Fr(float(r))))


def N(m, n):
    return sqrt(n + 1) if m == 0 else sqrt(2*(n + 1))


def ang(m, th):
    return cos(m*th) if m >= 0 else sin(-m*th)


def dang(m, th):
    return -m*sin(m*th) if m >= 0 else -m*cos(-m*th)


def Z(m, n, r, th):
    return N(m, n)*R(m, n, r)*ang(m, th)
