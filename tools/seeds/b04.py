PROPERTY = 'C04'
NEEDS = 'complex spin basis vectors'
BREAKS = 'the Pauli matrices are formed with the transpose instead of the adjoint of the bra spin vector'
EDITS = [
  ('basis_set.py',
   '                sigma_y[i, j] = np.dot(s.conj().T, np.dot(sigma_y_mat, t))\n',
   '                sigma_y[i, j] = np.dot(s.T, np.dot(sigma_y_mat, t))\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

a = np.array([1, 1j]) / np.sqrt(2); c = np.array([1j, 1]) / np.sqrt(2)
b = q.RandomBasisSet(2, 1)
s = b.s.copy()
b.change_to_general_orbital_basis(a=a, b=c)
V = np.array([a, c]).T
sy = V.conj().T @ np.array([[0, -1j], [1j, 0]]) @ V
ok(np.allclose(b.spin_y, 0.5 * np.kron(s, sy)))
'''
