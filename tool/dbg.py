import sys; sys.path.insert(0,'/verif')
from sai import db, engine
from sai.terms import show
D=db.load([sys.argv[1]])
for q in sys.argv[2:]:
    for f in D.find(q):
        e=engine.Engine(D)
        import time; t=time.time()
        rs=e.run(f)
        print('==',q,f['key'][-60:],len(rs),'states %.2fs'%(time.time()-t), 'unknown',e.unknown)
        for s in rs[:int(__import__('os').environ.get('N','12'))]:
            print('  ctrl',s.ctrl,'ret',show(s.ret) if s.ret else None)
            if __import__('os').environ.get('V'):
                print('    facts', [show(x) for x in s.facts.lin], {show(k):v for k,v in s.facts.bools.items()},[ (show(k),hex(v)) for k,v in s.facts.bytes.items()])
                for l,v in s.mem.items():
                    if e.nonlocal_loc(l): print('    ',show(l),'=',show(v))
                print('    eff',[str(x)[:150] for x in s.eff])
        bad=[b for b in e.bounds if not b[0]]
        print('  bounds',len(e.bounds),'bad',[(b[1],b[2],show(b[3]),show(b[4])) for b in bad][:6])
