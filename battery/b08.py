"""P08: sets of polynomials."""
import warnings
import numpy as np
import oracle as O


def expected(N):
    return sorted(O.orders(N), key=lambda o: O.osa(*o))


def check_set(R, got, N):
    from zernpy import ZernPol
    if not R.check(isinstance(got, (tuple, list)) and len(got) == (N + 1)*(N + 2)//2 and all(isinstance(p, ZernPol) for p in got), f"(N + 1)(N + 2)/2 polynomials for N = {N}", len(got), (N + 1)*(N + 2)//2):
        return
    for i, (p, o) in enumerate(zip(got, expected(N))):
        if not R.check(p.get_mn_orders() == o and p.get_indices()[1] == i, f"place {i} for N = {N}", p.get_indices(), o):
            return


def all_orders(R):
    from zernpy import generate_polynomials
    top = 54
    for N in list(range(top + 1)) + [3, 0, 10, 1]:
        R.case(N)
        check_set(R, generate_polynomials(N), N)
    R.exhaustive.append("all maximal orders 0 .. 54")
    R.case("default")
    check_set(R, generate_polynomials(), 10)
    check_set(R, generate_polynomials(max_order=4), 4)
    R.case("a second result has polynomials of its own content")
    a, b = generate_polynomials(3), generate_polynomials(5)
    check_set(R, a, 3)
    check_set(R, b, 5)


def converted(R):
    from zernpy import generate_polynomials
    for x, N in [(3.0, 3), (3.7, 3), (0.0, 0), (0.9, 0), (12.999, 12), (np.float64(5.5), 5), (np.int64(4), 4), (np.int32(7), 7), ("6", 6), (np.uint8(2), 2), (31.2, 31), (54.9, 54)]:
        R.case(repr(x))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = generate_polynomials(x)
        R.check(len(w) > 0, f"a warning for {x!r}", 0, 1)
        check_set(R, got, N)


def rejected(R):
    from zernpy import generate_polynomials
    for x in (-1, -2, -10, -55, -10**9, -1.0, -1.5, -7.2, np.int64(-3), "-4"):
        R.raises(ValueError, "a negative order", generate_polynomials, x)


PARTS = [("all orders", all_orders), ("converted orders", converted), ("negative orders", rejected)]
