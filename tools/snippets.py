"""Small programs for tools/crosscheck.py: n, m, k are numbers of the type int, x, y floats, a and b arrays with n floats, c an array
with n x m floats, l a list with n floats, t a list with n ints."""
import math
import numpy as np
from zernpy.zernikepol import ZernPol, generate_polynomials, fit_polynomials_vectors, generate_phases_image
from zernpy.zernpsf import ZernPSF
from zernpy.calculations import calc_zernike_pol as czp
from zernpy.calculations import find_pols_coeffs as fpc
from zernpy.calculations import calc_psfs as psf
from zernpy.calculations import calc_psfs_numba as comp
from zernpy.calculations import fit_zernike_pols as fit


# ------------------------------------------------------------------------------------------------ language
def int_arithmetic(n, m, k):
    return n // m, n % m, -n // m, -n % m, n - m*k, n**2, abs(m - k), divmod(n, m), (n + k) // 2, max(n, m), min(n, m, k)


def float_arithmetic(x, y):
    return x + y, x*y - x/(1.0 + y*y), x**2, x**-2.0 if x > 0.1 else 0, abs(x), max(x, y), min(x, y), round(x + y + 0.2503, 1), int(x*5), -x


def comparisons(n, m, x):
    r = []
    if n < m <= 5:
        r.append("a")
    elif n == m or not x > 0:
        r.append("b")
    else:
        r.append("c")
    return r, n != m, 1 if x >= 0 and n else 0, (n > 2) + (m > 2), n in (1, 2, 5), m not in [3, 4]


def truncation(x, y, n, m):
    return int(x), int(-x), int(y*3), round(y), round(x*4), math.floor(x*2), math.ceil(y*2), n/m, int(n/m), round(n/2)


def factorials(n, m):
    s = 0
    for i in range(n):
        s += math.factorial(n + m - i)//math.factorial(m)
    return s, math.factorial(n)*m


def running_sum(n, x):
    s = 0.0
    for i in range(1, n + 1):
        s += i*x
    return s


def running_product(n, x):
    p = 1.0
    for i in range(n):
        p *= x
    return p


def alternating(n, x):
    s, sign = 0.0, 1
    for i in range(n + 1):
        s += sign*x*i
        sign = -sign
    return s, sign


def steps(n, m):
    return [list(range(n, -1, -2)), list(range(m, m + 7, 3)), sum(range(n)), len(range(n, 20, m))]


def halves(n, x):
    s = 0
    for i in range(0, n, 2):
        s += x + i
    return s


def find_first(l, x):
    for i, y in enumerate(l):
        if y > x:
            return i
    return -1


def largest(l):
    best = l[0]
    for y in l[1:]:
        if y > best:
            best = y
    return best, max(l), min(l)


def collected(l, x):
    return [y*x for y in l], [i for i in range(len(l))], sum([y for y in l]), list(reversed(l)), l[::-1], l[1:]


def zipped(l, t):
    s = 0
    for p, q in zip(l, t):
        s += p*q
    return s, [p + q for p, q in zip(l, t)]


def nested(n, m, x):
    s = 0
    for i in range(n):
        for j in range(m):
            s += i*x + j
    return s


def triangle(n, m):
    s = 0
    for i in range(n + 1):
        for j in range(i + 1):
            s += j*m + 1
    return s


def append_loop(n, x):
    r = []
    for i in range(n):
        r.append(x + i)
    return r, len(r), r[-1]


def counted(n):
    i, k = 0, 1
    while i < n:
        k += i
        i += 1
    return i


def exceptions(n, m):
    try:
        if n > m:
            raise ValueError("text")
        x = n // (n - m)
    except ZeroDivisionError:
        return "zero"
    finally:
        n = 3
    return x, n


def raises(n):
    if n > 4:
        raise IndexError("no")
    return (1, 2, 3, 4)[n - 1]


def dictionaries(n, m):
    d = {n: "n", 20: m}
    d[m + 30] = n
    d.update(k1=4)
    return d.get(n), d[20], d.get(19), len(d), list(d.keys())[1], 20 in d, [v for v in d.values()][1], dict(d)["k1"]


def texts(n):
    return f"{3}_{'a'}", "a" + "b"*2, "_".join(["x", "y"]), "abc".upper(), "abc"[1:], "a,b".split(","), "Ab".lower() == "ab", len("abc")


def unpacking(n, m):
    (a, b), *c = (n, m), 3, 4
    a, b = b, a
    a += 2
    return a, b, c, [*c, a], (lambda q, r=2: q + r)(a)


def closures(n, x):
    def f(y, *args, z=1, **kw):
        return y*n + z + sum(args) + len(kw)
    return f(x), f(x, 1, 2), f(x, z=3), f(x, w=1), [f(i) for i in range(3)]


def conditional(x, n):
    return x if x > 0 else -x, n or 3, (n > 3 and 5) or 7, not n, None is None, n is None


def recursion(n):
    def f(k):
        return 1 if k <= 1 else k*f(k - 1)
    return f(4) + n


def copies(l):
    q = list(l)
    q[0] = 7.0
    w = l.copy()
    return q[0], l[0] == w[0], q is l, len(q) == len(l)


# ------------------------------------------------------------------------------------------------ numpy
def arrays(a, x, n):
    return a + x, x - a, a*a, a/2, -a, a**2, np.abs(a), a[0], a[-1], a[1:], a[::-1], a.shape, a.size, len(a), a.ndim, np.round(a, 2)


def array_sums(a, b, c):
    return np.sum(a*b), a.sum(), np.max(a), np.min(b), np.mean(a), np.sum(c), np.sum(c, axis=0), np.sum(c, axis=1), np.max(np.abs(c)), a.max()


def two_dimensions(c, a):
    return c[0], c[:, 0], c[-1, 0], c.T, c.shape, c*2, c[0, :], c[::-1, 0], np.transpose(c), c.flatten(), c.size


def broadcasting(c, a):
    return c*a[:, np.newaxis], c + a.reshape(-1, 1), a[None, :]*a[:, None]


def made(n, m, x):
    z = np.zeros(shape=(n, m))
    z[0, 0] = x
    z[n - 1, :] = 2.0
    o = np.ones(n, dtype="int")
    f = np.full((m,), x)
    return z, o, f, np.zeros_like(z), np.arange(n), np.linspace(0, 1, n + 1), np.arange(2, 2 + n), np.linspace(x, x + 1, 3, endpoint=False)


def filled(n, m, x):
    z = np.zeros(shape=(n, m))
    for i in range(n):
        for j in range(m):
            z[i, j] = x*i + j
    return z


def partly_filled(n, a, x):
    z = np.zeros(n)
    for i in range(n):
        if a[i] > x:
            z[i] = a[i]
    return z


def functions(a, x):
    return np.sqrt(a*a + 1), np.sin(a), np.cos(a), np.exp(x), np.exp(1j*x), np.floor(a), np.hypot(x, 2.0), np.maximum(a, x), np.where(a > x, a, x)


def masks(a, x):
    m = a > x
    return np.where(m, 1, 0), (a > x)*a, np.any(m), np.all(m), np.sum(m)


def mesh(n, m):
    u, v = np.meshgrid(np.arange(n), np.arange(m))
    return u, v, np.asarray(u + v, dtype="float")


def dtypes(n, a):
    i = np.zeros(3, dtype="uint8")
    return np.asarray([1, 2, 3]).dtype.kind == "i", np.zeros(2).dtype.kind, i.dtype.kind, a.astype("int"), np.asarray(2.5), np.array([n, 2]), i.shape


def aliasing(a, n):
    b = np.copy(a)
    b[0] = 5.0
    d = b
    d[0] += 1.0
    e = b[:]
    e[0] += 1.0
    return a[0], b[0], d[0]


def in_place(a, x):
    b = np.copy(a)
    b += x
    b *= 2
    b[1:] -= x
    return b


def complexes(x, y):
    z = x + 1j*y
    return abs(z)**2, z*np.conj(z), (z*z).real, z.imag, np.real(z), np.power(np.abs(z), 2), np.exp(1j*x)*np.exp(-1j*x)


# ------------------------------------------------------------------------------------------------ the package
def indices(n, m):
    p = ZernPol(m=m % (n + 1) if (m % (n + 1) - n) % 2 == 0 else n, n=n)
    return p.get_mn_orders(), p.get_indices(), p.normf(), p.get_polynomial_name(), p.get_polynomial_name(True)


def osa_index(k, n):
    p = ZernPol(osa_index=k + n)
    return p.get_mn_orders(), p.get_indices(), ZernPol.get_osa_index(-1, 3), ZernPol.get_noll_index(2, 4), ZernPol.get_fringe_index(-3, 5)


def noll_index(k):
    return ZernPol(noll_index=k).get_mn_orders(), ZernPol(fringe_index=k).get_mn_orders()


def names(k):
    return [ZernPol(osa_index=i).get_polynomial_name() for i in range(12)]


def wrong(n):
    return ZernPol(m=1, n=n).get_mn_orders()


def values(x, y):
    r = abs(x)/4
    return [ZernPol(osa_index=i).polynomial_value(r, y) for i in (0, 1, 4, 7, 12, 18, 24, 30, 40)]


def radial_values(x):
    r = abs(x)/4
    return [ZernPol(m=m, n=n).radial(r) for m, n in ((0, 0), (0, 2), (3, 5), (-2, 6), (1, 9), (4, 10), (-7, 11))]


def radial_slopes(x):
    r = abs(x)/4
    return [ZernPol(m=m, n=n).radial_dr(r) for m, n in ((0, 0), (0, 2), (3, 5), (-2, 6), (1, 9), (4, 10), (-7, 11))]


def angular(x):
    return [ZernPol(m=m, n=n).triangular(x) for m, n in ((0, 0), (-2, 2), (3, 5))], [ZernPol(m=m, n=n).triangular_dtheta(x) for m, n in ((0, 0), (-2, 2), (3, 5))]


def exact_equations(x):
    r = abs(x)/4 + 0.01
    p = ZernPol(m=-2, n=8)
    return czp.radial_polynomial_eq(p, r), czp.radial_derivative_eq(p, r), czp.normalization_factor(p), czp.define_orders(p)


def coefficients(n):
    return fpc.find_coeffs_orders((2, 6)), fpc.find_coeffs_orders_dr((1, 7)), fpc.increase_order_coeffs({1: 2, 3: 4}), fpc.sum_orders_coeffs(3, {1: 1}, {1: 2, 3: 1})


def sums(x, y):
    ps = [ZernPol(osa_index=i) for i in range(4)]
    return ZernPol.sum_zernikes([x, y, 1.0, 0.5], ps, 0.5, 0.25), ZernPol.gen_zernikes_surface is None


def generated(n):
    ps = generate_polynomials(2)
    return len(ps), [p.get_mn_orders() for p in ps]


def exact_psf_point(x):
    return psf.get_psf_point_r(ZernPol(osa_index=4), abs(x) + 0.5, 0.3, 0.2, 4, 6)


def compiled_psf_point(x):
    return comp.get_psf_point_r_comp((-1, 3), abs(x) + 0.5, 0.3, 0.2, 4, 6), comp.zernpol_value((2, 4), 0.5, 0.1)


def sizes(x):
    return psf.get_kernel_size(ZernPol(osa_index=4), 0.6, 0.2, 0.55, 0.95)


def tables(n):
    z = ZernPSF(ZernPol(osa_index=4))
    z.set_physical_props(NA=0.95, wavelength=0.55, expansion_coeff=0.2, pixel_physical_size=0.1)
    return z.NA, z.wavelength, z.expansion_coeff, z.pixel_size, z.alpha, z.k, z.pixel_size_nyquist


def nested_maximum(c, n, m):
    top, found = 0.0, False
    for i in range(c.shape[0]):
        for j in range(c.shape[1]):
            if c[i, j] > 0.25:
                found = True
                if c[i, j] > top:
                    top = c[i, j]
    return top, found


def guarded_minimum(a):
    low, steps = 10.0, 0
    for i in range(a.shape[0]):
        if a[i] < 0.5 and a[i] < low:
            low = a[i]
        steps += 1
    return low, steps
