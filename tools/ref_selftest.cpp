// Self-test of the reference evaluator; the library under test is not linked.
// usage: ref_selftest CASES   (written by ref_selftest.py)
#include "../harness/scen.hpp"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <set>
using namespace scen;
static std::array<P4,4> lab(const R m[4],R pin,R ct){ Kin K; for(int i=0;i<4;i++)K.m[i]=m[i]; R sq=std::sqrt(pin*pin+m[0]*m[0])+std::sqrt(pin*pin+m[1]*m[1]); if(!cm(K,sq,ct,0)) throw std::runtime_error("below threshold"); return K.k; }
int main(int,char**v){
  std::ifstream f(v[1]); std::string line; std::map<std::string,std::array<std::string,4>> P; std::map<std::string,bool> Q;
  long pts=0,bad=0,blocks=0,badblocks=0; std::map<std::string,int> worst; R mx=0; std::set<std::string> seen;
  while(std::getline(f,line)){ std::istringstream o(line); std::string k; o>>k;
    if(k=="proc"){ std::string n; int q; o>>n>>q; for(auto&x:P[n])o>>x; Q[n]=q; continue; }
    std::string n,t; o>>n; ref::Proc pr(P[n],Q[n]); Model m; m.wW=m.wZ=m.wh=0; R ms[4],pin,d[20];
    while(o>>t&&t!="|"){ R x; o>>x; if(t=="e")m.e=x; else if(t=="gs")m.gs=x; else if(t=="SW")m.SW=x; else if(t=="MW")m.MW=x; else if(t=="mh")m.mh=x; else if(t=="vev")m.vev=x; else if(t[0]=='m'&&t[1]==':')m.mf[ref::part(t.substr(2)).flav]=x; }
    for(R&x:ms)o>>x; o>>pin; for(R&x:d)o>>x; blocks++; seen.insert(n); bool b=false;
    for(int i=0;i<4;i++) if(std::abs(ms[i]-m.mass(pr.p[i]))>1e-9L*(1+ms[i])){ printf("mass mismatch %s leg %d: %Lg %Lg\n",n.c_str(),i+1,ms[i],m.mass(pr.p[i])); b=true; break; }
    for(int j=0;j<20;j++){ R sc,y=pr.amp2(m,lab(ms,pin,0.95L-0.1L*j),sc); R r=std::abs(y-d[j])/std::abs(y+d[j]); pts++; if(!(std::abs(y-d[j])<=1e-15L||r<=1e-9L)){ bad++; b=true; if(!worst[n]++) printf("differs %s p=%Lg cos=%Lg reference=%.12Lg CalcHEP=%.12Lg\n",n.c_str(),pin,0.95L-0.1L*j,y,d[j]); } else if(std::abs(y-d[j])>1e-15L) mx=std::max(mx,r); }
    badblocks+=b; }
  printf("CalcHEP: %zu processes, %ld data sets, %ld points; outside 1e-9: %ld points in %ld sets; largest other difference %.2Lg\n",seen.size(),blocks,pts,bad,badblocks,mx);
  // identities at generated points
  long nw=0,nl=0,nu=0,fw=0,fl=0,fu=0; R mw=0,ml=0; Limits L; L.mmin=0.05L; L.emax=1000; L.gmax=5;
  for(auto&q:P) for(int it=0;it<200;it++){
    ref::Proc pr(q.second,Q[q.first]); Gen g=Gen::random(pbt::mix(pbt::hashs(q.first))^pbt::mix(it+1)); Ctx c; Model m=genModel(g,L,c); std::array<R,4> ms; for(int i=0;i<4;i++)ms[i]=m.mass(pr.p[i]);
    Kin K; if(!genKin(g,c,ms,L,K,false)||std::abs(K.cost)>0.99L) continue;
    R sc,y=pr.amp2(m,K.k,sc);
    Kin B=K; R u[3],M[3][3]; genDir(g,u); rotmat(M,u,g.uniform(-3,3)); for(auto&p:B.k)p=rotate(p,M); genDir(g,u); R b=g.uniform(0,0.9L); for(auto&p:B.k)p=scen::boost(p,u,b);
    R s2,y2=pr.amp2(m,B.k,s2); nl++; R d=std::abs(y-y2)/(1e-9L*y+1e-13L*std::max(sc,s2)); ml=std::max(ml,d); if(!(d<=1)){ if(fl++<5)printf("frame dependence %s %.15Lg %.15Lg\n",q.first.c_str(),y,y2); }
    for(int i=0;i<4;i++){ auto&p=pr.p[i]; if(!(p.kind==ref::GLUON||(p.kind==ref::VECTOR&&p.vec==0)))continue; ref::Proc w=pr; w.ward=i; R ws,wy=w.amp2(m,K.k,ws); nw++; R r=ws>0?wy/ws:0; mw=std::max(mw,r); if(!(r<1e-24L)){ if(fw++<8)printf("Ward identity fails %s leg %d: %.3Lg of %.3Lg\n",q.first.c_str(),i+1,wy,ws); } }
  }
  for(auto&q:P){ ref::Proc pr(q.second,Q[q.first]); Model m; m.SW=0.474L;m.MW=80.385L; for(int i=0;i<ref::NFLAV;i++)m.mf[i]=(i<ref::UQ&&i%2==0)?0:5+i; R ms[4],y[2]; for(int i=0;i<4;i++)ms[i]=m.mass(pr.p[i]); for(int k=0;k<2;k++){ Kin K; for(int i=0;i<4;i++)K.m[i]=ms[i]; cm(K,k?R(40000):R(10000),0.3L,0); R sc; y[k]=pr.amp2(m,K.k,sc); } nu++; if(!(y[1]<=1.5L*y[0])){ fu++; printf("grows with energy %s: %.6Lg -> %.6Lg\n",q.first.c_str(),y[0],y[1]); } }
  printf("Ward identities: %ld tested, %ld fail, largest |M|^2/(sum of diagrams)^2 %.2Lg\n",nw,fw,mw);
  printf("frames: %ld tested, %ld fail, largest difference/tolerance %.2Lg\n",nl,fl,ml);
  printf("bounded at high energy (10 -> 40 TeV, fixed angle): %ld tested, %ld fail\n",nu,fu);
  return bad||fw||fl||fu; }
