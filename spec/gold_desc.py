import sys,json; sys.path.insert(0,'/verif')
from vlib import build, scenario as S
def vend(s): 
    b=s.encode(); return [int.from_bytes(b[i:i+4],'little') for i in (0,8,4)]
def mk(vs,sig,d):
    s=S.Scenario(); b,c,e=vend(vs)
    s.cpuid=[(0,None,2,b,c,e),(1,None,sig,0,0,0),(2,None,1,0,d,0)]
    s.file('/proc/cpuinfo','processor\t: 0\napicid\t\t: 0\n\n')
    for f in ('possible','present'): s.file('/sys/devices/system/cpu/'+f,'0\n')
    s.file('/sys/devices/system/cpu/kernel_max','0\n')
    return s
L=('l1i','l1d','l2','l3','l4')
def table(pers,vs,sig):
    e=build.build(pers,'plain')
    out={}
    for d,r in zip(range(1,256),S.run_batch(e,[mk(vs,sig,d) for d in range(1,256)])):
        x={L[i]:r['caches'][i][0][:6] for i in range(5) if r['caches'][i]}
        if x: out['%02x'%d]=x
    return out
a=table('x64','GenuineIntel',0x306a9)
for args in (('x86','GenuineIntel',0x306a9),('x64','CentaurHauls',0x6f0),('x64','AuthenticAMD',0x100f00),('x86','NexGenDriven',0x500)):
    b=table(*args); print(args,{k for k in set(a)|set(b) if a.get(k)!=b.get(k)})
sp={}
for name,args in (('intel-f06',('x64','GenuineIntel',0xf60)),('cyrix',('x86','CyrixInstead',0x540)),('nsc',('x86','Geode by NSC',0x540))):
    b=table(*args); sp[name]={k:b.get(k,{}) for k in set(a)|set(b) if a.get(k)!=b.get(k)}
assert sp['nsc']==sp['cyrix']; del sp['nsc']
json.dump({'any':a,'special':sp},open('/verif/golden/x86-descriptors.json','w'),indent=0,sort_keys=True)
for k,v in sorted(a.items()): print(k,v)
print(sp)
