"""The model of str % against CPython on random formats and arguments."""
import sys, random
sys.path.insert(0,'/verif')
import sx.instrument as I, sx.symval as V
r=random.Random(1)
vals=[0,1,-5,123,10**12,'','abc',"a'b",3.5,None,[1,'x'],True]
bad=0
n=0
from sx import engine as G
I.install()
G.Engine.current = E = G.Engine()
E.start_path()
for _ in range(200000):
    k=r.randint(0,3)
    f=''.join(r.choice(['%','%%','%s','%d','%r','%5s','%-5s','%05d','%+d','% d','%*d','%-*d','%0*d','%.2s','%.*s','%x','%08X','a','b ','%5.1s','%-+6d','%']) if True else '' for _ in range(r.randint(1,4)))
    args=tuple(r.choice(vals) for _ in range(k))
    try: want=f%args
    except Exception as e: want=type(e)
    try: got=I.percent(f,args)
    except BaseException as e:
        if type(e).__name__=='Unsupported': continue
        got=type(e)
    n+=1
    if type(got) is V.SymStr:
        got = got._concrete() if hasattr(got, '_concrete') else str(got)
    if got!=want:
        bad+=1
        if bad<15: print(repr(f),args,want,got)
print(n,bad)
