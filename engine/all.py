import sys, time, traceback, collections
sys.path.insert(0, '/verif/engine')
from entry import *
prog=Program(sys.argv[1])
flt=sys.argv[2] if len(sys.argv)>2 else ''
unk=collections.Counter()
tot=time.time()
ENT=('instantiate','execute','reply','query','migrate')
for bid in sorted(prog.fn):
    p=bid.split('::')
    if p[-1] not in ENT or len(p)!=3 or p[1]!='contract': continue
    if flt and flt not in bid: continue
    b=prog.fn[bid]
    I_=Interp(prog)
    names=[l[1] or 'a%d'%i for i,l in enumerate(b.locals[1:b.argc+1])]
    aid=I_.adt_of_ty(b.locals[b.argc][0])
    base=[P(n) for n in names[:-1]]
    vs=[('',P('msg'))]
    if aid and ADTS[aid]['enum']:
        vs=[(n,mk('adt',aid,n,tuple(x[0] for x in fs), tuple(mk('vf',P('msg'),n,x[0]) for x in fs))) for n,d,fs in ADTS[aid]['v']]
    for n,m in vs:
        t=time.time()
        I_=Interp(prog)
        try:
            st,v=run(I_, b.id, base+[m])
            S_=summarize(I_,st,v)
            dt=time.time()-t
            for k,c in I_.unknown.items(): unk[k]+=c
            flag='' if S_.ok else ' **NEVER OK**'
            if dt>1 or flag or flt: print(bid,n,'%.2fs W%d M%d sup=%d'%(dt,len(S_.writes),len(S_.msgs),len(B.support(S_.ok))),flag)
        except Exception as e:
            print(bid,n,'EXC',repr(e)[:200]); traceback.print_exc(limit=-4)
print('total',time.time()-tot,len(B.var),len(TM._tab)); print(unk)
