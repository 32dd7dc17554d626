PROPERTY = 'C21'
NEEDS = 'two molecules (or geometries) with the same number of electrons and basis functions built in one process'
BREAKS = 'electron repulsion integrals are reused for another molecule of the same size'
EDITS = [
  ('custom_system.py',
   '    h = pyscf.scf.hf.get_hcore(mol)\n    s = mol.intor_symmetric("int1e_ovlp")\n    u = mol.intor("int2e").reshape(l, l, l, l).transpose(0, 2, 1, 3)\n    dipole_integrals = mol.intor("int1e_r").reshape(3, l, l)\n\n    bs = BasisSet(l, dim=3, np=np)\n    bs.h = h\n    bs.s = s\n    bs.u = u\n    bs.nuclear_repulsion_energy = nuclear_repulsion_energy\n    bs.dipole_moment = dipole_integrals\n    bs.change_module(np=np)\n\n    system = SpatialOrbitalSystem(n, bs)\n\n',
   '    h = pyscf.scf.hf.get_hcore(mol)\n    s = mol.intor_symmetric("int1e_ovlp")\n    if (l, n) not in _ERI:\n        _ERI[l, n] = mol.intor("int2e")\n    u = _ERI[l, n].reshape(l, l, l, l).transpose(0, 2, 1, 3)\n    dipole_integrals = mol.intor("int1e_r").reshape(3, l, l)\n\n    bs = BasisSet(l, dim=3, np=np)\n    bs.h = h\n    bs.s = s\n    bs.u = u\n    bs.nuclear_repulsion_energy = nuclear_repulsion_energy\n    bs.dipole_moment = dipole_integrals\n    bs.change_module(np=np)\n\n    system = SpatialOrbitalSystem(n, bs)\n\n'),
  ('custom_system.py',
   'def construct_pyscf_system_ao(',
   '_ERI = {}\n\n\ndef construct_pyscf_system_ao('),
]
DEMO = r'''import numpy as np, warnings, sys
warnings.simplefilter('ignore')
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m='broken'):
    if not c:
        print(m); sys.exit(1)


from quantum_systems import construct_pyscf_system_ao as c
import pyscf
c('h 0 0 0; h 0 0 1.4', basis='sto-3g', add_spin=False)
s = c('h 0 0 0; h 0 0 2.8', basis='sto-3g', add_spin=False)
m = pyscf.gto.Mole(); m.unit = 'bohr'; m.build(atom='h 0 0 0; h 0 0 2.8', basis='sto-3g')
ok(np.allclose(s.u, m.intor('int2e').reshape((2,) * 4).transpose(0, 2, 1, 3)))
'''
