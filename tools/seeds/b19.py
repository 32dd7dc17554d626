PROPERTY = 'C19'
NEEDS = 'caching on and two basis sizes in the same shell'
BREAKS = 'the cache is keyed by the number of shells, so a request finds the elements of another size'
EDITS = [
  ('quantum_dots/two_dim/two_dim_helper.py',
   '    filename = f"tdho_coulomb_num_orbitals={num_orbitals}.npy"\n',
   '    num_shells = get_shell_energy(*get_indices_nm(num_orbitals - 1))\n    filename = f"tdho_coulomb_num_shells={num_shells}.npy"\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

import os
os.environ['QS_CACHE_TDHO'] = '1'
sys.path[0] = os.environ['DEMO_SCRATCH']
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements
for l in (2, 3, 2):
    ok(get_coulomb_elements(l).shape == (l,) * 4)
'''
