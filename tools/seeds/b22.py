PROPERTY = 'C22'
NEEDS = 'the dipole elements of a random basis'
BREAKS = 'the dipole components are symmetrised in place through a transposed view of themselves without conjugation'
EDITS = [
  ('random_basis.py',
   '''        for i in range(len(dipole_moment)):
            dipole_moment[i] = RandomBasisSet.make_hermitian(dipole_moment[i])

        return dipole_moment
''',
   '''        return 0.5 * (dipole_moment + dipole_moment.transpose(0, 2, 1))
'''),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

for dim in (1, 2, 3):
    b = q.RandomBasisSet(4, dim)
    for d in b.dipole_moment:
        ok(np.allclose(d, d.conj().T))
'''
