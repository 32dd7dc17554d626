PROPERTY = 'C04'
NEEDS = 'two spin doublings with different spin vectors in one process'
BREAKS = 'the Pauli matrices of the first spin doubling are reused whatever the spin vectors are'
EDITS = [
  ('basis_set.py',
   '            (\n                self.sigma_x,\n                self.sigma_y,\n                self.sigma_z,\n            ) = self.setup_pauli_matrices(self.a, self.b, self.np)\n',
   '            if BasisSet._paulis is None:\n                BasisSet._paulis = self.setup_pauli_matrices(\n                    self.a, self.b, self.np\n                )\n            self.sigma_x, self.sigma_y, self.sigma_z = BasisSet._paulis\n'),
  ('basis_set.py',
   '    def __init__(\n        self, l, dim, np=None',
   '    _paulis = None\n\n    def __init__(\n        self, l, dim, np=None'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)


a = np.array([1, 1j]) / np.sqrt(2); b = np.array([1, -1j]) / np.sqrt(2)
def mk(**kw):
    bs = q.BasisSet(2, dim=1, np=np)
    bs.h = np.eye(2); bs.s = np.eye(2); bs.u = np.zeros((2,) * 4)
    return bs.change_to_general_orbital_basis(anti_symmetrize=False, **kw)
mk()
x = mk(a=a, b=b)
S = np.array([[1, 0], [0, -1]])
v = [a, b]
w = 0.5 * np.kron(np.eye(2), [[v[i].conj() @ S @ v[j] for j in range(2)] for i in range(2)])
ok(np.allclose(x.spin_z, w))
'''
