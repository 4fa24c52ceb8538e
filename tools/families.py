import sys; import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))+"/../vlib")
import core, time, random, json, collections, fam
w=core.Work("test")
exe=core.build(w)
seed=int(sys.argv[1]); names=sys.argv[2:]
F={"garbage":lambda r:fam.garbage(r,600),"nested":lambda r:fam.nested(r,200),"prefixes":lambda r:fam.prefixes(r,200),"streams":lambda r:fam.streams(r,300),"everycut":lambda r:fam.everycut(r,2),
"propblocks":lambda r:fam.propblocks(r,700),"eachprop":fam.eachprop,"after":lambda r:fam.afterdecode(r,800),"buffers":lambda r:fam.buffers(r,300),"propmaps":lambda r:fam.propmaps(r,600),
"versions":lambda r:fam.versions(r,400),"codes":fam.codesweep,"ids":lambda r:fam.ids(r,1)[0],"pub":lambda r:fam.publishes(r,500),"conn":lambda r:fam.connects(r,500),"clones":lambda r:fam.clones(r,300),
"scrib":lambda r:fam.scribbles(r,800),"topics":lambda r:fam.topiclists(r,200),"sizes":fam.sizes,"creates":lambda r:fam.creates(),"mix":lambda r:fam.mixes(r,100),"par":lambda r:fam.pars(r,60),"longs":lambda r:fam.longs(r,200)}
for nm in names or F:
    r=random.Random(seed)
    t=time.time();sc=F[nm](r);t0=time.time()-t
    t=time.time();tr=core.drive(w,exe,sc);t1=time.time()-t
    t=time.time()
    f=core.judge(w,tr)
    print(nm,"gen %.1f drive %.1f judge %.1f"%(t0,t1,time.time()-t),f[1:],flush=True)
    c=collections.Counter()
    for x in f[0]:
        key=(x["op"],tuple(sorted(x["lab"])),x["why"]); c[key]+=1
        if c[key]<=2:
            print("  ",key, [str(e)[:200] for e in tr[x["trace"]][0][max(0,x["l"]-2):x["l"]-1]],json.dumps(tr[x["trace"]][0][x["l"]-1])[:400])
    if c: print(c)
w.close()
