PROPERTY = 'C10'
NEEDS = 'copying a system that has a time-evolution operator, then changing either system'
BREAKS = "the copy's operator still acts on the original system's elements"
EDITS = [
  ('time_evolution_operators/operator.py',
   '        self._system = system\n',
   '        self._system = system\n\n    def __deepcopy__(self, memo):\n        # The parameters of an operator never change\n        new = copy.copy(self)\n        memo[id(self)] = new\n\n        return new\n'),
  ('time_evolution_operators/operator.py',
   'import abc\n',
   'import abc\nimport copy\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.time_evolution_operators import LaserField
s = q.SpatialOrbitalSystem(2, q.RandomBasisSet(3, 2))
s.set_time_evolution_operator(LaserField(lambda t: 0.5))
c = s.copy_system()
c.change_basis(cr(3, 2))
ok(c.h_t(1.0).shape == (2, 2))
'''
