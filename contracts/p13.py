from .radial import *
CONTRACTS = []
coefficient_contracts(CONTRACTS)
value_contracts(CONTRACTS, ["radial_polynomial_coeffs", "radial_polynomial_coeffs_dr"])
