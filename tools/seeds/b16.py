PROPERTY = 'C16'
NEEDS = 'a two-dimensional oscillator with frequency different from 1 and orbitals with angular momentum'
BREAKS = 'the radial functions miss the oscillator length in r^|m|'
EDITS = [
  ('quantum_dots/two_dim/two_dim_helper.py',
   '    return (a * r) ** abs(m) * laguerre * radial_dep\n',
   '    return r ** abs(m) * laguerre * radial_dep\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.TwoDimensionalHarmonicOscillator(6, 8, 201, omega=0.5)
w = np.trapz(np.trapz(abs(b.spf[1]) ** 2 * b.R, b.radius, axis=1), b.theta)
ok(abs(w - 1) < 1e-3, w)
'''
