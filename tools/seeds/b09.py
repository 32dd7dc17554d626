PROPERTY = 'C09'
NEEDS = 'a time-dependent polarisation evaluated at two different times'
BREAKS = 'the polarisation of the first requested time is kept for all later times'
EDITS = [
  ('time_evolution_operators/operator.py',
   '        if not callable(self._polarization):\n            tmp = self._polarization\n            self._polarization = lambda t: tmp\n',
   '        tmp = self._polarization\n        if callable(tmp):\n            tmp = tmp(current_time)\n        self._polarization = lambda t: tmp\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.time_evolution_operators import LaserField
s = q.SpatialOrbitalSystem(2, q.RandomBasisSet(3, 2))
pol = lambda t: np.array([np.cos(t), np.sin(t)])
s.set_time_evolution_operator(LaserField(lambda t: t, pol))
for t in (0.3, 1.7):
    ok(np.allclose(s.h_t(t), s.h + t * np.tensordot(pol(t), s.dipole_moment, axes=(0, 0))))
'''
