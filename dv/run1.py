import sys, time, traceback, gc
gc.disable()
import mirsrv
from vals import *
import sym, spec
def run_entry(srv, root, focus=(), pre=(), kind='', args=None, opts=None, deadline=120, verbose=0):
    sp = spec.Spec(srv, focus, pre, kind, opts)
    eng = sym.Engine(srv, sp)
    eng.entry = root
    LAST[0]=eng
    eng.deadline = time.time()+deadline
    S0 = sym.State()
    outs = []
    inst = srv.roots['vharness::'+root]['inst'] if 'vharness::'+root in srv.roots else root
    b = srv.body(inst)
    for S in sp.start(S0):
        starts=[(S,[])]
        for i in range(b['nargs']):
            ty=b['locals'][i+1]
            nxt=[]
            for T,vs in starts:
                for U,v in sp.param(T, ty, i):
                    nxt.append((U,vs+[v]))
            starts=nxt
        for T,vs in starts:
            T.g['otx']=T.g['orx']=0
            for U,r in eng.call(T, inst, vs):
                sp.finish(U, r)
                outs.append((U,r))
    return eng, outs
LAST=[None]


def _roomy(f):
    return f()


# a frame this large makes the interpreter reserve one large piece of stack: without it, deep recursion maps and
# unmaps a page at every call that crosses the end of a small one
_roomy.__code__ = _roomy.__code__.replace(co_stacksize=600000)


def run_roomy(*a, **k):
    return _roomy(lambda: run_entry(*a, **k))


if __name__=='__main__':
    srv = mirsrv.Server('/verif/build/drv/release/mirdrv','/verif/build/capture.json')
    root=sys.argv[1]
    kw=eval('dict(%s)'%(sys.argv[2] if len(sys.argv)>2 else ''))
    t=time.time()
    try:
        eng,outs=run_roomy(srv,root,**kw)
    except Unsupported:
        e=LAST[0]
        print('INL',sorted(e.inlined.items(),key=lambda x:-x[1])[:25])
        print('LOOPS',e.loopstats)
        print('merged',getattr(e,'nmerged',0),'steps',e.steps,'sol',e.sol.n,e.sol.t)
        if hasattr(e,'curloops'): print('CUR',e.curloops)
        raise
    print('outs',len(outs),'time %.1f'%(time.time()-t),'solver %d/%.1fs'%(eng.sol.n,eng.sol.t),'steps',eng.steps,'merged',getattr(eng,'nmerged',0),'obl',len(eng.obl))
    bad={}
    for o in eng.obl:
        if not o.ok: bad.setdefault((o.clause,o.where,o.detail),[0,o.model])[0]+=1
    for k,v in bad.items(): print('FAIL',k,v[0],str(v[1])[:100])
    from collections import Counter
    print('INL',sorted(eng.inlined.items(),key=lambda x:-x[1])[:90]) if '-i' in sys.argv else 0
    print(Counter(o.clause for o in eng.obl))
    if '-l' in sys.argv: print('loops',eng.loopstats)
