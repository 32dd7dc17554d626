PROPERTY = 'C06'
NEEDS = 'a closed-shell system with more than one occupied orbital'
BREAKS = 'direct and exchange contributions are swapped (equal for a single occupied orbital)'
EDITS = [
  ('spatial_orbital_system.py',
   '            * self.np.trace(self.np.trace(self.u[o, o, o, o], axis1=1, axis2=3))\n            - self.np.trace(self.np.trace(self.u[o, o, o, o], axis1=1, axis2=2))\n',
   '            * self.np.trace(self.np.trace(self.u[o, o, o, o], axis1=1, axis2=2))\n            - self.np.trace(self.np.trace(self.u[o, o, o, o], axis1=1, axis2=3))\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

s = q.SpatialOrbitalSystem(4, q.RandomBasisSet(5, 1))
o = slice(0, 2)
w = 2 * np.einsum('ii', s.h[o, o]) + 2 * np.einsum('ijij', s.u[o, o, o, o]) - np.einsum('ijji', s.u[o, o, o, o])
ok(abs(s.compute_reference_energy() - w) < 1e-10)
'''
