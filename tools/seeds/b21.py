PROPERTY = 'C21'
NEEDS = 'a charged molecule in the RHF basis'
BREAKS = 'the dipole origin is divided by the number of electrons instead of the total nuclear charge'
EDITS = [
  ('custom_system.py',
   'np.einsum("z,zx->x", charges, coords) / charges.sum()',
   'np.einsum("z,zx->x", charges, coords) / mol.nelectron'),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

import pyscf
atom = "h 0 0 0; li 0 0 3"
s = q.construct_pyscf_system_rhf(atom, basis="sto-3g", add_spin=False, charge=2)
mol = pyscf.gto.Mole(); mol.unit = "bohr"; mol.charge = 2
mol.build(atom=atom, basis="sto-3g")
r = mol.intor("int1e_r").reshape(3, mol.nao, mol.nao)
sm = mol.intor_symmetric("int1e_ovlp")
# the dipole matrices have the spectrum of (r - R) in the metric of the overlap
import scipy.linalg as sl
want = sl.eigvalsh(r[2] - 9.0 / 4 * sm, sm)
ok(np.allclose(np.linalg.eigvalsh(s.dipole_moment[2]), want, atol=1e-8))
'''
