PROPERTY = 'C08'
NEEDS = 'a density matrix that is not symmetric'
BREAKS = 'the density matrix is used transposed'
EDITS = [
  ('system_helper.py',
   '            rho += phi_tilde_p * rho_qp[q, p] * phi_q\n',
   '            rho += phi_tilde_p * rho_qp[p, q] * phi_q\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

b = q.RandomBasisSet(3, 1); b.spf = cr(3, 7)
r = cr(3, 3)
ok(np.allclose(b.compute_particle_density(r), np.einsum('pi,qp,qi->i', b.spf.conj(), r, b.spf)))
'''
