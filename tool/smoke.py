"""Development aid: run the abstract interpreter over every function of the given units."""
import sys, time, signal, collections, os
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sai import db, engine
srcs = [l.strip() for l in open('/repo/_build/sources.txt')]
srcs = [s for s in srcs if s.endswith('.cpp') and '/src/' in '/' + s and 'pb.cc' not in s]
srcs = ['src/' + s.split('/src/', 1)[1] if '/src/' in s else s for s in srcs]
if len(sys.argv) > 1: srcs = sys.argv[1:]
D = db.load(srcs)
class TO(Exception): pass
def h(*a): raise TO('timeout')
signal.signal(signal.SIGALRM, h)
unk = collections.Counter(); err = collections.Counter(); slow = []; n = 0; ex = {}
for k, f in D.fns.items():
    if f.get('dep') or f.get('lambda') or not f.get('body') or not f.get('repo', True): continue
    if '/repo/' not in f['file'] : continue
    n += 1
    e = engine.Engine(D, phi=bool(os.environ.get('PHI'))); t = time.time()
    try:
        signal.alarm(20); rs = e.run(f); signal.alarm(0)
    except RecursionError as x: err['recursion'] += 1; ex.setdefault('recursion', f['q'])
    except Exception as x:
        signal.alarm(0)
        m = type(x).__name__ + ':' + str(x)[:90]; err[m] += 1; ex.setdefault(m, []).append(f['q'] + ':' + str(f['line']))
    t = time.time() - t
    if t > 3: slow.append((round(t, 1), f['q'], len(rs)))
    for q, c in e.unknown.items(): unk[q] += c
print(n, 'functions'); print('ERR'); [print(' ', c, m, ex[m][:3] if isinstance(ex[m], list) else ex[m]) for m, c in err.most_common(40)]
print('SLOW', slow[:20]); print('UNK', [(q, c) for q, c in unk.most_common(60)])
