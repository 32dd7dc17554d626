PROPERTY = 'C24'
NEEDS = 'a laser field without a polarisation vector'
BREAKS = 'the default polarisation asks the system for its dimension, which only the basis set has'
EDITS = [
  ('time_evolution_operators/operator.py',
   'np.zeros(self._system.dipole_moment.shape[0])',
   'np.zeros(self._system.dim)'),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.time_evolution_operators import LaserField
s = q.SpatialOrbitalSystem(2, q.RandomBasisSet(4, 3))
s.set_time_evolution_operator(LaserField(lambda t: t))
ok(np.allclose(s.h_t(2.0), s.h + 2 * s.dipole_moment[0]))
'''
