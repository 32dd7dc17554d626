PROPERTY = 'C15'
NEEDS = 'two oscillator bases of equal size, grid size and alpha that differ in another parameter'
BREAKS = 'the inner integral of an earlier basis is reused for a basis with other parameters'
EDITS = [
  ('quantum_dots/one_dim/one_dim_qd.py',
   '@numba.njit(cache=True)\ndef _compute_orbital_integrals(',
   '_INNER = {}\n\n\ndef _inner(l, num_grid_points, grid, spf, alpha, a):\n    key = (l, num_grid_points, alpha)\n    if key not in _INNER:\n        _INNER[key] = _compute_inner_integral(\n            spf, l, num_grid_points, grid, alpha, a\n        )\n    return _INNER[key]\n\n\n@numba.njit(cache=True)\ndef _compute_orbital_integrals('),
  ('quantum_dots/one_dim/one_dim_qd.py',
   '        inner_integral = _compute_inner_integral(\n            self.spf,\n            self.l,\n            self.num_grid_points,\n            self.grid,\n            self.alpha,\n            self.a,\n        )\n\n        self.u = _compute_orbital_integrals(\n            self.spf, self.l, inner_integral, self.grid\n        )\n\n        self.construct_dipole_moment()\n\n    def ho_function',
   '        inner_integral = _inner(\n            self.l,\n            self.num_grid_points,\n            self.grid,\n            self.spf,\n            self.alpha,\n            self.a,\n        )\n\n        self.u = _compute_orbital_integrals(\n            self.spf, self.l, inner_integral, self.grid\n        )\n\n        self.construct_dipole_moment()\n\n    def ho_function'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)


from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
ODHO(3, 6, 101, omega=1, a=0.25)
b = ODHO(3, 6, 101, omega=1, a=0.5)
x, f = b.grid, b.spf
w = 1 / np.sqrt((x[:, None] - x[None, :]) ** 2 + 0.5 ** 2)
u = np.trapz(np.trapz(f[1].conj()[None] * w * f[1][None], x, axis=1) * f[0].conj() * f[0], x)
ok(np.allclose(b.u[0, 1, 0, 1], u))
'''
