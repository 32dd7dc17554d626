PROPERTY = 'C05'
NEEDS = 'antisymmetrised basis, then a basis change, then a second antisymmetrising call (e.g. building a second general-orbital system)'
BREAKS = 'the antisymmetrisation mark is lost in a basis change, so the elements are antisymmetrised twice'
EDITS = [
  ('basis_set.py',
   '        self.u = self.transform_two_body_elements(\n            self.u, C, np=self.np, C_tilde=C_tilde\n        )\n\n        if self.spin_2_tb',
   '        self.u = self.transform_two_body_elements(\n            self.u, C, np=self.np, C_tilde=C_tilde\n        )\n        self._anti_symmetrized_u = False\n\n        if self.spin_2_tb'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.RandomBasisSet(3, 1)
g = q.GeneralOrbitalSystem(2, b)
g.change_basis(np.eye(6))
u = g.u.copy()
g2 = q.GeneralOrbitalSystem(2, g._basis_set)
ok(np.allclose(g2.u, u))
'''
