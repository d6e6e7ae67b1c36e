import sys, json, time, threading
sys.path.insert(0,'/verif/analyzer')
sys.setrecursionlimit(200000); threading.stack_size(512*1024*1024)
from term import *
import interp, models
def main():
    P=interp.Prog(json.load(open('/tmp/x/out.json')))
    for k,i in enumerate(P.insts):
        if i.get('body') and i['path'].endswith(sys.argv[1]) and i['local']:
            ip=interp.Interp(P,models.Models)
            orig=ip.switch
            def sw(fr,st,t):
                r=orig(fr,st,t)
                if not r:
                    v=ip.operand(st,fr,t[1])
                    print('SW',v.op, v.a[0].op if v.op=='discr' else '', len(v.a[0].a[0]) if v.op=='discr' and v.a[0].op=='alt' else '')
                    x=v.a[0]
                    for g,w in cases(x):
                        print('  case',show(w)[:200])
                        for f in g:
                            if conflicts(st.F,f): print('    CONFLICT',show(frozenset([f]))[:1500])
                    print('   F',len(st.F))
                    import pickle
                    sys.exit()
                return r
            ip.switch=sw
            r,st=ip.run_root(k)
            if r is not None: ip.await_(st,r)
            break
th=threading.Thread(target=main); th.start(); th.join()
