"""Specification functions used by the contracts (independent of the code)."""
from vc import terms as T, sym as S
from vc.sym import Sym, Unsupported

NMAX = 54


def t(x):
    return x if isinstance(x, T.P) else S.term(x)


def I(p):
    return Sym(p, "int") if not p.is_const() else int(p.const())


def AND(*cs):
    return S.mkbool(T.cand(*[S.cond_of(c) for c in cs]))


def OR(*cs):
    return S.mkbool(T.cor(*[S.cond_of(c) for c in cs]))


def NOT(c):
    return S.mkbool(T.cnot(S.cond_of(c)))


def IMPLIES(a, b):
    return OR(NOT(a), b)


def aabs(m):
    """|m| by cases."""
    p = t(m)
    return T.ite(T.ge0(p), p, T.neg(p))


def even(p):
    """p is even (p a term or symbolic integer)."""
    p = p if isinstance(p, T.P) else t(p)
    return S.mkbool(T.eq(T.sub(p, T.scale(T.fdiv(p, 2), 2)), T.ZERO))


def valid(m, n, nmax=None):
    """(m, n) are orders of a Zernike polynomial."""
    M, N = t(m), t(n)
    cs = [T.ge0(N), T.le(M, N), T.le(T.neg(N), M), S.cond_of(even(T.sub(N, M)))]
    if nmax is not None:
        cs.append(T.le(N, T.pc(nmax)))
    return S.mkbool(T.cand(*cs))


def osa(m, n):
    """OSA / ANSI: (n (n + 2) + m)/2."""
    M, N = t(m), t(n)
    return T.fdiv(T.add(T.mul(N, T.add(N, T.pc(2))), M), 2)


def noll(m, n):
    """Noll: n (n + 1)/2 + |m| + (0 if m > 0 and n mod 4 in (0, 1), or m < 0 and n mod 4 in (2, 3), else 1)."""
    M, N = t(m), t(n)
    r = T.sub(N, T.scale(T.fdiv(N, 4), 4))
    low = T.cor(T.eq(r, T.ZERO), T.eq(r, T.ONE))
    zero = T.cor(T.cand(T.gt0(M), low), T.cand(T.gt0(T.neg(M)), T.cnot(low)))
    return T.add(T.add(T.fdiv(T.mul(N, T.add(N, T.ONE)), 2), aabs(m)), T.ite(zero, T.ZERO, T.ONE))


def fringe(m, n):
    """Fringe: (1 + (n + |m|)/2)^2 - 2 |m| + (1 if m < 0 else 0)."""
    M, N = t(m), t(n)
    a = aabs(m)
    s = T.add(T.ONE, T.fdiv(T.add(N, a), 2))
    return T.add(T.sub(T.mul(s, s), T.scale(a, 2)), T.ite(T.gt0(T.neg(M)), T.ONE, T.ZERO))


SCHEMES = {"osa_index": osa, "noll_index": noll, "fringe_index": fringe}
FIRST = {"osa_index": 0, "noll_index": 1, "fringe_index": 1}
