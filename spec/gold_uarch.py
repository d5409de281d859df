import sys,json; sys.path.insert(0,'/verif')
from vlib import build, scenario as S, x86model as M, x86gen as G
V,U=M.enums(); inv={v:k for k,v in U.items()}
def eax(f,m):
    bf=min(f,15); return (m&15)<<4|bf<<8|(m>>4)<<16|(f-bf)<<20
out={}
for bits,pers in ((64,'x64'),(32,'x86')):
    exe=build.build(pers,'plain')
    cases=[]
    for vs in ("GenuineIntel","AuthenticAMD","HygonGenuine"):
        for f in range(0,0x30):
            for m in range(256 if f in(6,) or f>=15 else 16):
                s=S.Scenario(); b,c,d=G.vendor_regs(vs)
                s.cpuid=[(0,None,1,b,c,d),(1,None,eax(f,m),0,0,0)]
                s.regs={}; s.file("/proc/cpuinfo","processor\t: 0\napicid\t: 0\n\n")
                for n in("possible","present"): s.file(G.SYS+n,"0\n")
                s.file(G.SYS+"kernel_max","0\n")
                cases.append((vs,f,m,s))
    def body(w,n):
        mine=cases[w::n]; return [(a,f,m,r["cores"][0][5:7]) for (a,f,m,_),r in zip(mine,S.run_batch(exe,[x[3] for x in mine]))]
    d={}
    for part in S.parallel(8,body):
        for a,f,m,(v,u) in part:
            if inv[u]!="unknown": d.setdefault((a,f,inv[u]),[]).append(m)
    out[str(bits)]=[[a,f,u,sorted(ms)] for (a,f,u),ms in sorted(d.items())]
t=json.dumps(out).replace('], ["','],\n["')
open('/verif/golden/x86-uarch.json','w').write(t+"\n")
print(len(t),len(out["64"]),len(out["32"]))
