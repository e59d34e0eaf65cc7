"""C02 best hypothesis and budgets (same loops as C01)."""
from . import c01
def run(ck): c01.run(ck, 'C02')
