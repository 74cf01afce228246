import json,sys,time
import load,engine,std_model
from terms import *
from engine import *
def prog():
    return Program(json.load(open('/tmp/mir.json')))
def eng(p,cls=Engine,**k):
    return cls(p,intrinsics=std_model.M,**k)
def run(e,f,args,st=None):
    r=e.run_fn(f,args,st or St(),e.ctx(0,0,f['id']),0,False)
    return r
if __name__=='__main__':
    p=prog(); e=eng(p)
    f=p.one(sys.argv[1]); 
    args=[]
    st=St()
    for i in range(f['argc']):
        t=p.T[f['lt'][1+i]]
        s=mk('sym',('arg',i))
        if t['k']=='ref' and t.get('mut'):
            st.mem[('arg',i)]=s; args.append(mk('ref',('arg',i)))
        elif t['k']=='ref': args.append(mk('vref',s))
        else: args.append(s)
    t0=time.time()
    res=run(e,f,args,st)
    for s,v in res:
        print('RET',show(v,5)); 
        for t,x in list(s.facts.items())[:12]: print('     ',show(t,4),'=',x)
        for r,x in s.mem.items(): print('   mem',r,show(x,5))
    print(len(res),time.time()-t0,{k:v for k,v in e.stats.items() if k!='inlined'})
