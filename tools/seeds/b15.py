PROPERTY = 'C15'
NEEDS = 'a non-zero beta parameter'
BREAKS = 'the non-dipole term is linear instead of quadratic in the position'
EDITS = [
  ('quantum_dots/one_dim/one_dim_qd.py',
   '                    * (self.grid + self.beta * self.grid ** 2)\n',
   '                    * (self.grid + (self.beta * self.grid) ** 2)\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.ODQD(3, 6, 101, beta=0.3)
x = b.grid
w = np.array([[np.trapz(b.spf[i].conj() * (x + 0.3 * x ** 2) * b.spf[j], x) for j in range(3)] for i in range(3)])
ok(np.allclose(b.dipole_moment[0], w))
'''
