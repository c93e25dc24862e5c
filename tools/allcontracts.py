import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import importlib, glob, os, re
from multiprocessing import get_context
def w(a):
    from pyvc.verify import check_contract, summary
    c=importlib.import_module('contracts.'+a[0]).CONTRACTS[a[1]]
    r=check_contract(c)
    return a[0]+' '+summary(r)+(' FRAME '+r['frame_violation'] if r.get('frame_violation') else '')
if __name__=='__main__':
    ps=sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob('/verif/contracts/C*.py'))
    jobs=[(p,i) for p in ps for i in range(len(importlib.import_module('contracts.'+p).CONTRACTS))]
    with get_context('spawn').Pool(7) as pool:
        for s in pool.imap_unordered(w,jobs): print(s,flush=True)
