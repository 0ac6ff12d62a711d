"""P03: radial polynomials."""
from .radial import *
from .values import *
from . import p01
CONTRACTS = []
BATTERY_S = 25
dispatch_contracts(CONTRACTS, "radial", "R", 40)
value_contracts(CONTRACTS, ["radial_polynomial", "radial_polynomial_eq", "radial_polynomial_coeffs"])
coefficient_contracts(CONTRACTS, ("R",))
CONTRACTS += [c for c in p01.CONTRACTS if c.lemma or "published" in c.name]
