PROPERTY = 'C01'
NEEDS = 'a basis change of a spin basis with a C_tilde that is not the adjoint of C'
BREAKS = 'spin_2_tb is transformed with the adjoint of C instead of the given C_tilde'
EDITS = [
  ('basis_set.py',
   '                self.spin_2_tb, C, np=self.np, C_tilde=C_tilde\n',
   '                self.spin_2_tb, C, np=self.np\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.RandomBasisSet(3, 2)
b.change_to_general_orbital_basis(anti_symmetrize=False)
old = b.spin_2_tb.copy()
C, Ct = cr(6, 4), cr(4, 6)
b.change_basis(C, Ct)
ok(np.allclose(b.spin_2_tb, np.einsum('pa,qb,abcd,cr,ds->pqrs', Ct, Ct, old, C, C)))
'''
