"""debugging aid: show summaries.  t1.py [-e N] name-suffix…"""
import sys, time, threading, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000); threading.stack_size(512*1024*1024)
from core import *
def main():
    C=Ctx(os.environ.get("CRATE","didcomm"))
    a=sys.argv[1:]
    for pat in a:
        for k,i in enumerate(C.P.insts):
            if i.get('body') and i['path'].endswith(pat) and i['kind']=='fn' and i['local']:
                t=time.time()
                r=C.run(k)
                print('##',i['path'],[C.P.tstr(x) if isinstance(x,int) else x for x in i['args']],'%.2fs'%(time.time()-t),'notes',list(r.notes)[:5])
                print(show(r.value,int(os.environ.get('LIM','3000'))))
                print('F:',show(r.st.F,800) if r.st.F is not None else None)
                for e in r.events[:int(os.environ.get('EV','0'))]:
                    print('  EV',e.kind,e.name,show(e.args,300),'@',e.span)
th=threading.Thread(target=main); th.start(); th.join()
