#!/usr/bin/env python3
"""Authoring-time generator of harness/procs/procs_*.cpp (the output is committed;
no check runs this script).  Reads the public headers of the process classes."""
import re,glob,os,sys
repo=sys.argv[1] if len(sys.argv)>1 else '/repo'
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','procs')
KIND={'echarge':'e','gscharge':'gs','gcharge':'gs','sinW':'SW','massW':'MW','massh':'mh','widthW':'wW','widthZ':'wZ','widthh':'wh','vev':'vev',
 'massd':'m:d','masse':'m:e','massmu':'m:m','masstau':'m:l','masss':'m:s','massc':'m:c','masst':'m:t','massb':'m:b','massu':'m:u'}
# where the printed label differs from the implemented order of particles
PARTS={'ueeu':['u','e','e','u'],'eeAZ':['e','E','A','Z']}
f=lambda s:[re.sub(r'.*[ &]','',x.strip()) for x in s.split(',')] if s else []
defs=[]
for h in sorted(glob.glob(repo+'/SM/include/*.h')):
    n=os.path.basename(h)[:-2]
    src=repo+'/SM/%s.cpp'%n
    if not os.path.exists(src): continue
    raw=open(src).read(); cpp=re.sub(r'//.*','',raw); t=re.sub(r'//.*','',open(h).read())
    c=re.search(r'%s::%s\(([^)]*)\)'%(n,n),cpp)
    if not c: continue
    sm=re.search(r'%s::set_masses\(([^)]*)\)'%n,cpp)
    lab=re.search(r'\\t\* ([^"\\:(]*)',raw).group(1)
    parts=PARTS.get(n) or [x.strip() for x in lab.replace('->',',').split(',')]
    assert len(parts)==4,(n,parts)
    q='d' if n.count('d')>n.count('u') else 'u'
    kind=lambda a:('m:'+q) if a=='massf' else KIND[a]
    ctor=[kind(a) for a in f(c.group(1))]; ms=[kind(a) for a in f(sm.group(1))] if sm else []
    amps=[];amp2s=[];ampmom=False;hasv='set_v' in t
    for m,a in re.findall(r'^\s*(?:cdouble|ldouble|void|int)\s+(\w+)\(([^)]*)\)\s*;',t,re.M):
        na=0 if not a.strip() else a.count(',')+1
        if re.match(r'amp(_|$)',m): amps.append((m,na))
        elif m=='amp2' and na==4:
            ampmom|=bool(re.search(r'%s::amp2\(const'%n,cpp))
        elif m.startswith('amp2') and na==0 and re.search(r'%s::%s\(\)'%(n,m),cpp): amp2s.append(m)
    amp2s.sort(key=lambda x:x!='amp2')
    defs.append((n,parts,ctor,ms,amps,amp2s,ampmom,hasv))
os.makedirs(out,exist_ok=True)
NCH=8
for k in range(NCH):
    ch=defs[k::NCH]; o=['// generated by tools/gen_adapters.py','#include "../procs.hpp"']
    for d in ch: o.append('#include "SM/include/%s.h"'%d[0])
    o.append('namespace pr {')
    for n,parts,ctor,ms,amps,amp2s,ampmom,hasv in ch:
        A=lambda v,k:','.join('%s[%d]'%(v,i) for i in range(k))
        o.append('struct A_%s : Obj { spinas::%s t; A_%s(const LD*a):t(%s){(void)a;}'%(n,n,n,A('a',len(ctor))))
        o.append('  void set_masses(const LD*a)override{(void)a;%s}'%(('t.set_masses(%s);'%A('a',len(ms))) if ms else ''))
        o.append('  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}')
        o.append('  CD amp(int w,const int*d)override{(void)d;switch(w){'+''.join('case %d:return t.%s(%s);'%(i,m,A('d',k)) for i,(m,k) in enumerate(amps))+'}throw 1;}')
        o.append('  LD amp2(int w)override{switch(w){'+''.join('case %d:return t.%s();'%(i,m) for i,m in enumerate(amp2s))+'}throw 1;}')
        if hasv: o.append('  void set_v(LD v)override{t.set_v(v);}')
        if ampmom: o.append('  bool amp2_of_momenta(const LD*a,const LD*b,const LD*c,const LD*d,LD&r)override{r=t.amp2(a,b,c,d);return true;}')
        o.append('};')
    o.append('void reg_%d(std::vector<Def>&R){'%k)
    L=lambda xs:'{'+','.join('"%s"'%x for x in xs)+'}'
    for n,parts,ctor,ms,amps,amp2s,ampmom,hasv in ch:
        o.append(' R.push_back(Def{"%s",{{%s}},%s,%s,%s,%s,%s,%s,[](const LD*a)->Obj*{return new A_%s(a);}});'%(n,','.join('"%s"'%p for p in parts),'true' if 'QED' in n else 'false','true' if hasv else 'false',L(ctor),L(ms),L([m for m,k in amps]),L(amp2s),n))
    o.append('}\n}')
    open(os.path.join(out,'procs_%d.cpp'%k),'w').write('\n'.join(o)+'\n')
o=['// generated by tools/gen_adapters.py','#include "../procs.hpp"','#include <algorithm>','#include <cstring>','namespace pr {']
o+=['void reg_%d(std::vector<Def>&);'%k for k in range(NCH)]
o.append('std::vector<Def>& registry(){static std::vector<Def> r;return r;}')
o.append('void register_all(){auto&r=registry();if(!r.empty())return;'+''.join('reg_%d(r);'%k for k in range(NCH))+'std::sort(r.begin(),r.end(),[](const Def&a,const Def&b){return std::strcmp(a.name,b.name)<0;});}')
o.append('const Def* find(const std::string&n){for(auto&d:registry())if(n==d.name)return &d;return nullptr;}')
o.append('}')
open(os.path.join(out,'registry.cpp'),'w').write('\n'.join(o)+'\n')
print(len(defs),'processes')
