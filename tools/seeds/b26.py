PROPERTY = 'C26'
NEEDS = 'orbitals of large angular momentum, whose Coulomb elements need factorials beyond 32!'
BREAKS = 'the logarithm of large factorials is replaced by the leading terms of the Stirling series'
EDITS = [
  ('quantum_dots/two_dim/coulomb_elements.py',
   '''    fac = 0

    for a in range(2, n + 1):
''',
   '''    fac = 0

    if n > 32:
        return (n + 0.5) * np.log(n) - n + 0.5 * np.log(2 * np.pi)

    for a in range(2, n + 1):
'''),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

from fractions import Fraction as F
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
# direct integral of two states with m = k (n = 0): the relative motion gives a single sum of gamma functions
def direct(k):
    # <k0|1/r12|k0> by relative angular momentum: weights binom(k, mr) / 2^k
    return sum(float(F(math.comb(k, mr), 2 ** k)) * math.exp(math.lgamma(mr + 0.5) - math.lgamma(mr + 1.0)) for mr in range(k + 1)) / math.sqrt(2)
for k in (0, 1, 2, 20, 34, 40):
    ref, got = direct(k), coulomb_ho(0, k, 0, 0, 0, k, 0, 0)
    ok(abs(ref - got) < 1e-6 * abs(ref), f"{k} {ref} {got}")
'''
