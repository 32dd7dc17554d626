PROPERTY = 'C29'
NEEDS = 'a sinc-DVR basis with a non-zero beta'
BREAKS = 'the non-dipole term has the wrong power'
EDITS = [
  ('sinc_dvr/one_dim/sinc_dvr.py',
   '        self.dipole_moment[0] = np.diag(self.grid + self.beta * self.grid ** 2)\n',
   '        self.dipole_moment[0] = np.diag(self.grid * (1 + self.beta ** 2))\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.ODSincDVR(5, 4, beta=0.3)
ok(np.allclose(b.dipole_moment[0], np.diag(b.grid + 0.3 * b.grid ** 2)))
'''
