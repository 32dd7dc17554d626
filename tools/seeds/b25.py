PROPERTY = 'C25'
NEEDS = 'an orbital beyond the first one hundred and twenty-seven shells'
BREAKS = 'the shell counter is kept as a signed byte and wraps around'
EDITS = [
  ('quantum_dots/two_dim/two_dim_helper.py',
   '''    while current_shell <= p:
        shell_counter += 1
''',
   '''    while current_shell <= p and shell_counter < 128:
        shell_counter += 1
'''),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_index_p, get_indices_nm
for p in list(range(300)) + list(range(7000, 9000)):
    n, m = get_indices_nm(p)
    ok(n >= 0 and get_index_p(n, m) == p)
'''
