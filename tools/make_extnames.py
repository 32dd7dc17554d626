import json, importlib, builtins
mods="numpy numpy.linalg numpy.random numpy.fft scipy scipy.special scipy.linalg scipy.integrate scipy.sparse scipy.sparse.linalg scipy.constants math cmath os os.path sys time uuid sympy sympy.core numba pandas abc warnings functools itertools collections operator pathlib typing copy json pickle tempfile shutil pyscf pyscf.gto pyscf.scf pyscf.ao2mo pyscf.lib contextlib string re types enum dataclasses numbers fractions random glob inspect io subprocess threading multiprocessing concurrent.futures hashlib datetime logging textwrap traceback".split()
out={}
for m in mods:
    try:
        x=importlib.import_module(m)
    except Exception as e:
        print("no",m,e); continue
    names=set(dir(x))
    if hasattr(x,"__all__"): names|=set(x.__all__)
    if m=="scipy":
        names|={"special","linalg","integrate","sparse","constants","optimize","interpolate","signal","stats","fft","misc","spatial","ndimage","io","cluster"}
    out[m]=sorted(n for n in names if not (n.startswith("__") and n not in("__version__","__name__","__file__","__doc__","__dict__")))
    
out["builtins"]=sorted(dir(builtins))
# instance members
import numpy as np, pandas as pd, sympy, pyscf, pathlib, numbers
from pyscf import gto, scf
mol=gto.M(atom="He 0 0 0",basis="sto-3g",verbose=0)
hf=scf.RHF(mol)
hf.kernel()
objs=[np.zeros(2),np.float64(1),np.dtype(float),np.ufunc,np.add,[],{},"",1,1.0,1j,set(),(),frozenset(),b"",pd.DataFrame({"a":[1]}),pd.Series([1]),pd.Index([1]),sympy.Symbol("x"),sympy.Float(1.0),sympy.Integer(1),sympy.exp(sympy.Symbol("x")),sympy.Matrix([[1]]),mol,hf,pathlib.Path("."),open("/dev/null"),(lambda:0),gto,range(1),iter([]),Exception("x"),object(),type,property(lambda s:0),np.random.default_rng(),np.random.RandomState(1),np.nditer(np.zeros(2)),memoryview(b""),slice(1),(x for x in []),np.finfo(float),np.iinfo(int),np.poly1d([1]), pd.DataFrame({"a":[1]}).loc,pd.DataFrame({"a":[1]}).groupby("a"),np.flatiter]
import numba
@numba.njit
def f(x): return x
f(1)
objs.append(f)
inst=set()
for o in objs:
    inst|=set(dir(o))
inst|=set(vars(mol))|set(vars(hf))
out["<instances>"]=sorted(n for n in inst if n.isidentifier())
json.dump(out,open("/verif/qsa/extnames.json","w"),separators=(",",":"))
