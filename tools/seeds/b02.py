PROPERTY = 'C02'
NEEDS = 'two-body elements transformed with an independent C_tilde'
BREAKS = 'one of the two bra indices is contracted with the adjoint of C'
EDITS = [
  ('basis_set.py',
   '        _u = np.tensordot(_u, C_tilde, axes=(1, 1)).transpose(0, 3, 1, 2)\n',
   '        _u = np.tensordot(_u, C.conj(), axes=(1, 0)).transpose(0, 3, 1, 2)\n'),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)

u = cr(3, 3, 3, 3); C, Ct = cr(3, 2), cr(2, 3)
r = q.BasisSet.transform_two_body_elements(u, C, np, C_tilde=Ct)
ok(np.allclose(r, np.einsum('pa,qb,abcd,cr,ds->pqrs', Ct, Ct, u, C, C)))
'''
