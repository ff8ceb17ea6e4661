import sys, time
sys.path.insert(0, '/verif/engine')
from entry import *
t=time.time()
prog=Program(sys.argv[1]); print('load',time.time()-t)
crate, ent = sys.argv[2], sys.argv[3]
I_=Interp(prog)
b=prog.fn[crate+'::contract::'+ent]
print(b.locals[1:b.argc+1])
names=[l[1] for l in b.locals[1:b.argc+1]]
msgty=b.locals[b.argc][0]
aid=I_.adt_of_ty(msgty)
base=[P(n) for n in names[:-1]]
def variants_():
    if aid and ADTS[aid]['enum']:
        for n,d,fs in ADTS[aid]['v']:
            yield n, mk('adt',aid,n,tuple(x[0] for x in fs), tuple(P('msg.'+n+'.'+x[0]) if False else mk('vf',P('msg'),n,x[0]) for x in fs))
    else: yield '', P('msg')
for n,m in variants_():
    if len(sys.argv)>4 and sys.argv[4]!='-' and n!=sys.argv[4]: continue
    t=time.time()
    I_=Interp(prog)
    st,v=run(I_, b.id, base+[m])
    S_=summarize(I_,st,v)
    print('=====',n,'%.2fs'%(time.time()-t),'bdd',len(B.var),'terms',len(TM._tab), 'unknown',I_.unknown)
    if len(sys.argv)>5: show(S_); 
    if ent=='query': print(pp(S_.payload))
