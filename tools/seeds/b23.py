PROPERTY = 'C23'
NEEDS = 'samplers handed over as an iterator that can be consumed only once, and a second step'
BREAKS = 'an iterator of samplers is kept as it is, so that only the first step reaches the samplers'
EDITS = [
  ('sampler.py',
   '        if type(samplers) not in [list, tuple, set]:\n            samplers = list(samplers)\n',
   '        if not hasattr(samplers, "__iter__"):\n            samplers = [samplers]\n'),
]
DEMO = r'''import numpy as np, warnings, sys, math
warnings.simplefilter("ignore")
import quantum_systems as q
rng = np.random.default_rng(1)
def cr(*s): return rng.normal(size=s) + 1j * rng.normal(size=s)
def ok(c, m="broken"):
    if not c:
        print(m); sys.exit(1)

from quantum_systems.sampler import SampleCollector
log = []
class A:
    def __init__(self, k): self.k = k
    def sample(self, step): log.append((self.k, step))
    def dump(self, samples):
        samples[self.k] = len(log); return samples
c = SampleCollector((A(k) for k in range(3)), np)
c.sample(0); c.sample(1)
ok(log == [(k, s) for s in range(2) for k in range(3)])
ok(set(c.dump(save_samples=False)) == {0, 1, 2})
'''
