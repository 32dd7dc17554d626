PROPERTY = 'C17'
NEEDS = 'spin doubling compact elements and then looking at the full operator'
BREAKS = 'the compact elements of opposite spins are dropped in the spin doubling'
EDITS = [
  ('sinc_dvr/one_dim/sinc_dvr.py',
   '            return np.kron(u, np.ones((2, 2)))\n',
   '            return np.kron(u, np.eye(2))\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

a = q.ODSincDVR(3, 4, u_repr='2d'); b = q.ODSincDVR(3, 4, u_repr='4d')
a.change_to_general_orbital_basis(anti_symmetrize=False); b.change_to_general_orbital_basis(anti_symmetrize=False)
ok(np.allclose(a.u, np.einsum('pqpq->pq', b.u)))
'''
