"""P04: derivatives of radial polynomials."""
from .radial import *
from .values import *
from . import p01
CONTRACTS = []
BATTERY_S = 25
dispatch_contracts(CONTRACTS, "radial_dr", "dR", 38)
value_contracts(CONTRACTS, ["radial_derivative", "radial_derivative_eq", "radial_polynomial_coeffs_dr", "radial_polynomial", "radial_polynomial_coeffs"])
coefficient_contracts(CONTRACTS)
