PROPERTY = 'C14'
NEEDS = 'changing the grid of the general-orbital system in place'
BREAKS = 'the general-orbital system shares the grid with the closed-shell system'
EDITS = [
  ('spatial_orbital_system.py',
   '            self._basis_set.copy_basis(),\n',
   '            shallow_copy(self._basis_set),\n'),
  ('spatial_orbital_system.py',
   'from quantum_systems import QuantumSystem, GeneralOrbitalSystem\n',
   'from copy import copy as shallow_copy\n\nfrom quantum_systems import QuantumSystem, GeneralOrbitalSystem\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

s = q.SpatialOrbitalSystem(2, q.ODQD(3, 5, 21))
g = s.construct_general_orbital_system()
x = s.grid.copy()
g.grid[:] += 1
ok(np.allclose(s.grid, x))
'''
