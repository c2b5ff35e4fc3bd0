import sys
sys.path.insert(0,'/verif')
from rtsa.harness import *
import numpy as np
import glob
import os
H = os.path.dirname(os.path.abspath(__file__))
files = sorted(glob.glob(H + "/snips*.py"))
"""Differential test of the abstract interpreter against CPython on concrete programs
(the interpreter's result has to be equal, or unknown; never a different value)."""
def reify(r,v,depth=0):
    if isinstance(v,Ref):
        o=r.state.get(v)
        c=r.i.content(v) if o.kind in('list','dict','set') else None
        if o.kind=='list': return [reify(r,x) for x in c]
        if o.kind=='dict': return {reify(r,k):reify(r,x) for k,x in c.d.values()}
        if o.kind=='set': return {reify(r,k) for k,x in c.d.values()}
        return ('REF',o.kind)
    if isinstance(v,Num):
        e=v.expr
        if e.is_Integer: return int(e)
        if e.is_number: 
            c=complex(e); return c.real if c.imag==0 else c
        return ('EXPR',str(e))
    if isinstance(v,Arr): return [reify(r,x) for x in v.items]
    if isinstance(v,tuple): return tuple(reify(r,x) for x in v)
    if isinstance(v,(Gate,Opq)): return ('OPQ',str(v)[:200])
    return v
def norm(v):
    if isinstance(v,(np.floating,np.integer)): v=v.item()
    if isinstance(v,np.bool_): v=bool(v)
    if isinstance(v,np.ndarray): v=v.tolist()
    if isinstance(v,bool) : return ('b',v)
    if isinstance(v,(int,float)): return round(float(v),9)
    if isinstance(v,tuple): return ('t',)+tuple(map(norm,v))
    if isinstance(v,list): return [norm(x) for x in v]
    if isinstance(v,dict): return {k:norm(x) for k,x in v.items()}
    if isinstance(v,set): return v
    return v
def diff(a,b,path=''):
    if type(a)==type(b) and isinstance(a,(tuple,list)) and len(a)==len(b):
        for k,(x,y) in enumerate(zip(a,b)): yield from diff(x,y,path+f'[{k}]')
    elif isinstance(a,dict) and isinstance(b,dict) and list(a)==list(b):
        for k in a: yield from diff(a[k],b[k],path+f'[{k!r}]')
    elif a!=b: yield path,a,b
only = sys.argv[1:]
for file in files:
    src = open(file).read()
    ns = {"__name__": os.path.basename(file)[:-3]}
    sys.modules[ns["__name__"]] = type(sys)(ns["__name__"])
    sys.modules[ns["__name__"]].__dict__.update(ns)
    ns = sys.modules[ns["__name__"]].__dict__
    exec(compile(src, file, "exec"), ns)
    s = Session(src)
    for n,f in ns.items():
        if not n.startswith('t_') or only and n not in only: continue
        try: want=norm(f())
        except Exception as e: print(n,'PYTHON FAILS',repr(e)); continue
        try:
            r=s.run(n)
        except Exception as e:
            import traceback
            tb=traceback.format_exc().splitlines()
            print(n,'CRASH',repr(e), '|'.join(tb[-6:])[:600]); continue
        if r.error: print(n,'ERROR',r.error); continue
        if r.value is DEAD: print(n,'DEAD',r.raised_text()); continue
        got=norm(reify(r,r.value))
        d=list(diff(got,want))
        for p,a,b in d[:6]: print(n,p,'got',str(a)[:150],'want',str(b)[:150])
        if not d: print(n,'ok') if only else None
