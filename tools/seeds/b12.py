PROPERTY = 'C12'
NEEDS = 'changing the module of a basis that has been made general, where the two-body spin operator exists'
BREAKS = 'the two-body spin-squared operator keeps the arrays of the old module'
EDITS = [
  ('basis_set.py',
   '            ("_spin_2", self.spin_2),\n            ("_spin_2_tb", self.spin_2_tb),\n        ]:\n            setattr(self, name',
   '            ("_spin_2", self.spin_2),\n        ]:\n            setattr(self, name'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

class A(np.ndarray): pass
class M:
    def __getattr__(self, n): return getattr(np, n)
    def asarray(self, x): return np.asarray(x).view(A)
b = q.RandomBasisSet(2, 1)
g = b.change_to_general_orbital_basis()
g.change_module(M())
for n in ('h', 'u', 's', 'dipole_moment', 'spin_x', 'spin_y', 'spin_z', 'spin_2', 'spin_2_tb'):
    a = getattr(g, n)
    ok(a is None or isinstance(a, A), n)
'''
