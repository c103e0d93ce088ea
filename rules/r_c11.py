"""C11: representation of rational numbers (shares the analysis of C10)."""
import r_c10
from r_c10 import *

EXPLANATION = r_c10.EXPLANATION + " This check judges the representation on exit of every operation: validity bits, canonical form, use of the word part, ownership of pooled big numbers."
ASSUMPTIONS = r_c10.ASSUMPTIONS


def check(P, R):
    report(P, R, REPR)
    R.need(20, "C11.repr")
    R.need(10, "C11.owner")
