import sys,time,cProfile,pstats
import dev
from tls_model import *
class Tr:
    def __init__(s): s.n={}
    def __getattr__(s,k):
        if k.startswith('on_') and k!='on_assume':
            def h(eng,st,fr,**kw):
                w=eng.where(fr)
                key=(k,w['fn'].split('::')[-1],w['line'])
                if key not in s.n:
                    print(k,w['fn'].split('::')[-1],w['line'],{a:(show(b,4)[:300] if type(b) is Term else b) for a,b in kw.items()})
                s.n[key]=s.n.get(key,0)+1
            return h
        raise AttributeError
if __name__=='__main__':
    p=dev.prog(); tr=Tr()
    e=TlsEngine(p,[tr] if len(sys.argv)>2 else [])
    e.max_blocks=int(400000)
    t0=time.time()
    pr=cProfile.Profile(); pr.enable()
    try:
        res,f=(run_client if sys.argv[1]=='c' else run_server)(e,p)
        print(len(res),'results')
        import collections
        print(collections.Counter(show(v,3)[:60] for s,v in res))
    except Budget if False else Exception as x:
        import traceback; traceback.print_exc(); print([ (g.f['d'],g.bb) for g in e.frames])
    pr.disable()
    print(time.time()-t0,{k:(v if k not in('inlined',) else len(v)) for k,v in e.stats.items()})
    pstats.Stats(pr).sort_stats('cumtime').print_stats(25)
