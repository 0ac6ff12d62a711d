"""P04: radial derivatives."""
import brad
PARTS = brad.batch("dR", "radial_dr", 38)
