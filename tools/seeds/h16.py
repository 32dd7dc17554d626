PROPERTY = 'C16'
NEEDS = 'enough orbitals for two dipole pairs with the same (n_p, |m_p|, n_q) but different |m_q|'
BREAKS = 'radial integrals are memoised under a key that omits the angular quantum number of the second orbital'
EDITS = [
  ('quantum_dots/two_dim/two_dim_ho.py',
   '                I_r = radial_integral(r_p, r_q)\n',
   "                key = (n_p, abs(m_p), n_q)\n                if not hasattr(self, '_rc'):\n                    self._rc = {}\n                if key not in self._rc:\n                    self._rc[key] = radial_integral(r_p, r_q)\n                I_r = self._rc[key]\n"),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)


from quantum_systems import TwoDimensionalHarmonicOscillator as T
b = T(6, 8, 401)
r, t = b.R, b.T
for k, x in enumerate((r * np.cos(t), r * np.sin(t))):
    for p in range(6):
        for p2 in range(6):
            w = np.trapz(np.trapz(b.spf[p].conj() * x * b.spf[p2] * r, b.radius, axis=1), b.theta)
            ok(abs(w - b.dipole_moment[k, p, p2]) < 1e-2, (k, p, p2, w, b.dipole_moment[k, p, p2]))
'''
