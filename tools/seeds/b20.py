PROPERTY = 'C20'
NEEDS = 'a strong magnetic field, so that the lowest orbitals differ by more than ten units of angular momentum'
BREAKS = 'elements with a large angular momentum transfer are skipped as negligible'
EDITS = [
  ('quantum_dots/two_dim/two_dim_helper.py',
   '''                n_r, m_r = df.loc[r, ["n", "m"]].values
                for s in range(num_orbitals):
''',
   '''                n_r, m_r = df.loc[r, ["n", "m"]].values
                # A large transfer of angular momentum is exponentially small
                if abs(m_p - m_r) > 10:
                    continue
                for s in range(num_orbitals):
'''),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements_B, construct_dataframe
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
l = 12
df = construct_dataframe(np.arange(l), np.arange(-l - 5, l + 6), omega_c=40.0, omega=np.sqrt(1 + 400.0))
u = get_coulomb_elements_B(l, df)
nm = [tuple(int(x) for x in df.loc[p, ["n", "m"]].values) for p in range(l)]
for p, q_, r, s in [(0, 11, 11, 0), (0, 11, 0, 11), (11, 0, 0, 11), (3, 4, 4, 3)]:
    ref = coulomb_ho(*nm[p], *nm[q_], *nm[r], *nm[s])
    ok(abs(u[p, q_, r, s] - ref) < 1e-12 + 1e-9 * abs(ref))
'''
