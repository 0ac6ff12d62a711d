"""P03: radial polynomials."""
import brad
PARTS = brad.batch("R", "radial", 40)
