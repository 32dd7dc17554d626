PROPERTY = 'C07'
NEEDS = 'an output buffer that still holds an old Fock matrix'
BREAKS = 'the buffer is cleared only when it was just allocated'
EDITS = [
  ('spatial_orbital_system.py',
   '            f = np.zeros_like(h)\n\n        f.fill(0)\n',
   '            f = np.empty_like(h)\n            f.fill(0)\n\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

s = q.SpatialOrbitalSystem(4, q.RandomBasisSet(5, 1))
f = s.construct_fock_matrix(s.h, s.u)
g = s.construct_fock_matrix(s.h, s.u, f=f.copy())
ok(np.allclose(f, g))
'''
