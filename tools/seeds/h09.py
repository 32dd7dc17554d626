PROPERTY = 'C09'
NEEDS = 'laser fields without polarisation on systems of different dimension, the lower-dimensional one evaluated first'
BREAKS = 'the default polarisation of the first system is used for all later ones'
EDITS = [
  ('time_evolution_operators/operator.py',
   '        if self._polarization is None:\n            # Set default polarization along x-axis\n            self._polarization = np.zeros(self._system.dipole_moment.shape[0])\n            self._polarization[0] = 1\n',
   '        if self._polarization is None:\n            # Set default polarization along x-axis\n            if LaserField._default is None:\n                LaserField._default = np.zeros(\n                    self._system.dipole_moment.shape[0]\n                )\n                LaserField._default[0] = 1\n            self._polarization = LaserField._default\n'),
  ('time_evolution_operators/operator.py',
   'class LaserField(TimeEvolutionOperator):\n',
   'class LaserField(TimeEvolutionOperator):\n    _default = None\n\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)


def sysd(d):
    bs = q.BasisSet(3, dim=d, np=np)
    bs.h = cr(3, 3); bs.s = np.eye(3); bs.u = cr(3, 3, 3, 3); bs.dipole_moment = cr(d, 3, 3)
    s = q.SpatialOrbitalSystem(2, bs)
    s.set_time_evolution_operator(q.LaserField(lambda t: np.sin(t)) if hasattr(q, 'LaserField') else __import__('quantum_systems.time_evolution_operators', fromlist=['LaserField']).LaserField(lambda t: np.sin(t)))
    return s
for d in (1, 3):
    s = sysd(d)
    try:
        r = s.h_t(0.7)
    except ValueError as e:
        ok(False, str(e))
    ok(np.allclose(r, s.h + np.sin(0.7) * s.dipole_moment[0]))
'''
