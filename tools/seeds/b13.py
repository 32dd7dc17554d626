PROPERTY = 'C13'
NEEDS = 'assigning two-body elements whose last axes have the wrong length'
BREAKS = 'only the first two axes of assigned elements are checked'
EDITS = [
  ('basis_set.py',
   '        return [length == axis for axis in arr.shape]\n',
   '        return [length == axis for axis in arr.shape[:2]]\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.BasisSet(3, 1)
try:
    b.u = np.zeros((3, 3, 4, 4))
except AssertionError:
    sys.exit(0)
print('accepted'); sys.exit(1)
'''
