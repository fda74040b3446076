import sys,collections,time,re
sys.path.insert(0,'/verif')
from sa import model,contracts as C,reval,terms as t
spec,key,obsn=sys.argv[1:4]
P=model.load(); S=model.load_spec(spec); S.fallback=P
for k,v in P.records.items(): S.records.setdefault(k,v)
ps,_=C.pairs(P,S)
pr=[p for p in ps if p.key.startswith(key)][0]
def cmp(name,a,b,enums,n,seed,asm=None):
    print(name)
    if name!=obsn: return 'equal',None
    a,b=asm.apply(a),asm.apply(b)
    if len(sys.argv)>4: print(t.show(a,12)[:4000]); print('----'); print(t.show(b,12)[:4000])
    cs,ss=reval.constants(a,b)
    H=collections.Counter(); t0=time.time()
    for k in range(150):
        env=reval.Env((seed,k),cs,ss,enums); env.fixed,env.ranges,env.dims=asm.eqs,asm.ranges,asm.dims
        t1=time.time()
        try:
            if not all(env.cond(c,None) for c in asm.conds): H['pre']+=1; continue
            va=env.ev(a); ta=time.time()-t1; vb=env.ev(b); H['ok' if reval.match(va,vb,env.gens) else 'DIFF']+=1
            if not reval.match(va,vb,env.gens) and H['DIFF']<4: print('DIFF',str(va)[:300],'|',str(vb)[:300], str(env.gens)[:600])
            tb=time.time()-t1-ta
            if ta+tb>0.2: print(k,env.n,'%.2f %.2f'%(ta,tb), env.steps)
        except (reval.Skip,RecursionError,OverflowError,ZeroDivisionError) as e: H[repr(e)[:60]]+=1; 
        if time.time()-t0>40: break
    print(H,len(list(t.subterms(a))),len(list(t.subterms(b))))
    return 'equal',None
C.compare=cmp
class Ctx:
    tier='quick';seed=1;notes=[];analysed={}
    def count(s,*a):pass
    def ok(s,*a):pass
    def fail(s,*a):print(a)
c=Ctx();c.P=P
C.check_pair(c,P,S,pr,{})
print(c.notes)
