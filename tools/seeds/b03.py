PROPERTY = 'C03'
NEEDS = 'spin doubling of a basis with stored bra functions that are not the conjugate of the kets'
BREAKS = 'the stored bra functions are replaced by the conjugate of the kets'
EDITS = [
  ('basis_set.py',
   '                self.bra_spf = self.add_spin_bra_spf(self._bra_spf, self.np)\n',
   '                self.bra_spf = self.add_spin_bra_spf(\n                    self.spf[::2].conj(), self.np\n                )\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.RandomBasisSet(3, 1)
b.spf = cr(3, 5); b.bra_spf = cr(3, 5)
old = b.bra_spf.copy()
b.change_to_general_orbital_basis()
ok(np.allclose(b.bra_spf, np.repeat(old, 2, axis=0)))
'''
