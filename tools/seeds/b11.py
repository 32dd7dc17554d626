PROPERTY = 'C11'
NEEDS = 'keeping a reference to the dipole elements across a basis change of unchanged size'
BREAKS = 'a basis change of unchanged size overwrites the dipole array obtained (or supplied) earlier'
EDITS = [
  ('basis_set.py',
   '        self.dipole_moment = self.np.asarray(dipole_moment)\n',
   '        if self.dipole_moment[0].shape == dipole_moment[0].shape:\n            # Reuse the storage\n            for i in range(len(dipole_moment)):\n                self.dipole_moment[i] = dipole_moment[i]\n        else:\n            self.dipole_moment = self.np.asarray(dipole_moment)\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.RandomBasisSet(3, 2)
d = b.dipole_moment; old = d.copy()
b.change_basis(cr(3, 3))
ok(np.allclose(d, old))
'''
