PROPERTY = 'C18'
NEEDS = 'an off-centre Gaussian well'
BREAKS = 'the derivative ignores the centre of the well'
EDITS = [
  ('quantum_dots/one_dim/one_dim_potentials.py',
   '        return -(x - self.center) / self.deviation ** 2 * self(x)\n',
   '        return -x / self.deviation ** 2 * self(x)\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

V = q.ODQD.GaussianPotential(1.5, 0.7, 0.9, np)
x = np.linspace(-3, 3, 50); e = 1e-6
ok(np.allclose(V.derivative(x), (V(x + e) - V(x - e)) / (2 * e), atol=1e-6))
'''
