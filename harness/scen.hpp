// Generators for physics scenarios: model parameters and on-shell, momentum-conserving
// 2->2 kinematics in arbitrary frames.  Independent of the library under test.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <array>

namespace scen {
using pbt::Gen; using pbt::Ctx; using ref::R; using ref::P4; using ref::Model; using ref::C;
static const R PI=3.14159265358979323846264338327950288L;

struct Limits { R mmin=1e-4L, mmax=200, emax=8000, gmax=20, elab=8000; };

// ---- model parameters
inline R genMass(Gen&g,const Limits&L){
  switch(g.below(4)){
    case 0: return g.pickr({1,10,80,125,173,5,0.5L,0.25L});
    case 1: return g.uniform(1,150);
    default: return g.logu(L.mmin,L.mmax);
  }
}
inline Model genModel(Gen&g,const Limits&L,Ctx&c){
  Model m; int prof=(int)g.below(5);
  m.e=prof==0?0.31333L:g.uniform(0.1L,1.5L); m.gs=prof==0?1.238L:g.uniform(0.1L,2);
  m.SW=prof==0?0.474L:(g.below(5)==0?g.pickr({0.5L,0.70710678118654752440L,0.1L,0.9L}):g.uniform(0.1L,0.95L));
  R base=genMass(g,L);
  for(int f=0;f<ref::NFLAV;f++){
    bool nu=f<ref::UQ&&f%2==0; if(nu){m.mf[f]=0;continue;}
    if(prof==0){ static const R real[ref::NFLAV]={0,0.0005L,0,0.105L,0,1.777L,0.0042L,0.0075L,1.23L,0.095L,172.5L,4.25L}; m.mf[f]=real[f]; if(m.mf[f]<L.mmin)m.mf[f]=L.mmin; }
    else if(prof==1) m.mf[f]=base;                       // degenerate
    else m.mf[f]=genMass(g,L);
  }
  m.MW=prof==0?80.385L:std::max(prof==1&&g.flip()?base:genMass(g,L),R(0.5L));
  m.mh=prof==0?125:std::max(prof==1&&g.flip()?base:genMass(g,L),R(0.5L));
  if(prof>=2&&g.below(6)==0) switch(g.below(4)){ case 0: m.mh=m.MW; break; case 1: m.mh=m.MZ(); break; case 2: m.mh=2*m.MW; break; default: m.mh=2*m.MZ(); }   // coincidences and thresholds
  if(prof>=2&&g.below(6)==0){ static const int fl[]={1,3,5,6,7,8,9,10,11}; int f=fl[g.below(9)]; switch(g.below(4)){ case 0: m.mf[f]=m.MW; break; case 1: m.mf[f]=m.MZ(); break; case 2: m.mf[f]=m.mh; break; default: m.mf[f]=m.mh/2; } }
  static const char*nm[]={"realistic","degenerate","generic","generic","generic"}; c.tag(std::string("params:")+nm[prof]);
  return m;
}
inline void describe(Ctx&c,const Model&m){ if(!c.verbose)return; std::ostringstream o;o<<std::setprecision(21); o<<"model e="<<m.e<<" gs="<<m.gs<<" SW="<<m.SW<<" MW="<<m.MW<<" mh="<<m.mh<<" wW="<<m.wW<<" wZ="<<m.wZ<<" wh="<<m.wh<<" vev="<<m.vev<<" masses(e,mu,tau,u,d,c,s,t,b)="; for(int f:{1,3,5,6,7,8,9,10,11})o<<m.mf[f]<<(f==11?"":","); c.log.push_back(o.str()); }

// ---- frames
struct Frame { R rot[3][3]; R n[3]; R beta=0; bool hasrot=false; };
inline void rotmat(R M[3][3],const R u[3],R th){ // Rodrigues, built from cross products
  R c=std::cos(th),s=std::sin(th); for(int i=0;i<3;i++)for(int j=0;j<3;j++)M[i][j]=(i==j?c:R(0))+(1-c)*u[i]*u[j];
  M[0][1]-=s*u[2];M[0][2]+=s*u[1];M[1][0]+=s*u[2];M[1][2]-=s*u[0];M[2][0]-=s*u[1];M[2][1]+=s*u[0]; }
inline void genDir(Gen&g,R u[3]){
  int k=(int)g.below(8); u[0]=u[1]=u[2]=0;
  if(k<3){ u[k]=g.flip()?-1:1; return; }
  if(k==3){ int a=(int)g.below(3),b=(a+1)%3; R t=g.uniform(-PI,PI); u[a]=std::cos(t);u[b]=std::sin(t); return; }
  R z=g.uniform(-1,1),ph=g.uniform(-PI,PI),r=std::sqrt(std::max(R(0),1-z*z)); u[0]=r*std::cos(ph);u[1]=r*std::sin(ph);u[2]=z; }
inline P4 boost(const P4&p,const R n[3],R b){ if(b==0)return p; R ga=1/std::sqrt((1-b)*(1+b)); R np=n[0]*p[1]+n[1]*p[2]+n[2]*p[3]; R k=ga*ga/(ga+1)*b*b*np+ga*b*p[0]; return {ga*(p[0]+b*np),p[1]+n[0]*k,p[2]+n[1]*k,p[3]+n[2]*k}; }
inline P4 rotate(const P4&p,const R M[3][3]){ P4 q=p; for(int i=0;i<3;i++)q[1+i]=M[i][0]*p[1]+M[i][1]*p[2]+M[i][2]*p[3]; return q; }
inline void onshell(P4&p,R m){ p[0]=std::sqrt(m*m+(p[1]*p[1]+p[2]*p[2]+p[3]*p[3])); }

struct Kin { std::array<P4,4> k; R s=0,t=0,u=0,sqrts=0,cost=0; std::array<R,4> m; std::string frame; };

// centre-of-mass kinematics: z axis beam
inline bool cm(Kin&K,R sq,R c,R phi){
  R s=sq*sq; auto pc=[&](R a,R b){R x=(sq-(a+b))*(sq+(a+b))*(sq-(a-b))*(sq+(a-b)); return x<=0?R(0):std::sqrt(x)/(2*sq);};
  if(sq<K.m[0]+K.m[1]||sq<K.m[2]+K.m[3]) return false;
  R pi=pc(K.m[0],K.m[1]),pf=pc(K.m[2],K.m[3]); R sn=std::sqrt(std::max(R(0),(1-c)*(1+c)));
  R cp=std::cos(phi),sp=std::sin(phi); if(phi==0){cp=1;sp=0;} if(phi==PI){cp=-1;sp=0;} if(phi==PI/2){cp=0;sp=1;} if(phi==-PI/2){cp=0;sp=-1;}
  K.k[0]={0,0,0,pi};K.k[1]={0,0,0,-pi};K.k[2]={0,pf*sn*cp,pf*sn*sp,pf*c};K.k[3]={0,-pf*sn*cp,-pf*sn*sp,-pf*c};
  for(int i=0;i<4;i++)onshell(K.k[i],K.m[i]);
  K.s=s;K.sqrts=sq;K.cost=c; return true;
}
inline void setInv(Kin&K){ P4 a=ref::add(K.k[0],K.k[1]),b=ref::sub(K.k[0],K.k[2]),d=ref::sub(K.k[0],K.k[3]); K.s=ref::mdot(a,a);K.t=ref::mdot(b,b);K.u=ref::mdot(d,d); }
// exact proper permutation of the axes: components that vanish stay exactly zero
inline void axes(Gen&g,Kin&K){ static const int pm[6][3]={{0,1,2},{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0}}; int i=(int)g.below(6); int s0=g.flip()?-1:1,s1=g.flip()?-1:1; int s2=(i<3?1:-1)*s0*s1; int sg[3]={s0,s1,s2};
  for(auto&p:K.k){ P4 q=p; for(int j=0;j<3;j++){ R x=sg[j]*q[1+pm[i][j]]; p[1+j]=x==0?R(0):x; } } }
// move to a generated frame.  Returns tags.
inline void genFrame(Gen&g,Ctx&c,Kin&K,const Limits&L,bool allowRest=true){
  int k=(int)g.below(8); 
  if(k==0){K.frame="cm";}
  else if(k<=2){ R u[3]; genDir(g,u); R th=g.below(4)==0?g.pickr({PI/2,PI,-PI/2,PI/4,3*PI/2,2*PI}):g.uniform(-2*PI,2*PI); R M[3][3]; rotmat(M,u,th); for(auto&p:K.k)p=rotate(p,M); K.frame="rotated"; }
  else if(k==7){ axes(g,K); K.frame="axis"; }
  if(k>=3&&k<=5){ R u[3]; genDir(g,u); if(k==5) axes(g,K); else { R M[3][3]; R a[3]; genDir(g,a); rotmat(M,a,g.uniform(-PI,PI)); for(auto&p:K.k)p=rotate(p,M); }
    R gx=1; for(auto&p:K.k)gx=std::max(gx,p[0]); gx=std::min(L.gmax,std::max(R(1.01L),L.elab/(2*gx))); R ga=1+ (g.flip()? g.logu(1e-6L,1) : g.uniform(0,1))*(gx-1); R b=std::sqrt((ga-1)*(ga+1))/ga; for(auto&p:K.k)p=boost(p,u,b); K.frame="boosted"; }
  if(k==6){ // rest frame of one massive leg
    int i=(int)g.below(4); R gx=1; for(auto&p:K.k)gx=std::max(gx,p[0]); if(allowRest&&K.m[i]>0&&K.k[i][0]/K.m[i]<std::min(L.gmax,L.elab/(2*gx))){ R pm=std::sqrt(K.k[i][1]*K.k[i][1]+K.k[i][2]*K.k[i][2]+K.k[i][3]*K.k[i][3]); if(pm>0){ R n[3]={-K.k[i][1]/pm,-K.k[i][2]/pm,-K.k[i][3]/pm}; R b=pm/K.k[i][0]; for(auto&p:K.k)p=boost(p,n,b); K.k[i]={K.m[i],0,0,0}; } K.frame="rest"; } else K.frame="cm"; }
  for(int i=0;i<4;i++)onshell(K.k[i],K.m[i]);
  c.tag("frame:"+K.frame); setInv(K);
}
inline bool genKin(Gen&g,Ctx&c,const std::array<R,4>&ms,const Limits&L,Kin&K,bool frames=true,bool allowRest=true){
  K.m=ms; R thr=std::max(ms[0]+ms[1],ms[2]+ms[3]); R sq;
  int ek=(int)g.below(4); 
  if(thr==0) sq=ek==0?g.pickr({10,100,250,1000,1}):g.logu(1,L.emax);
  else if(ek==0) sq=thr*(1+g.pickr({0.5L,1,0.1L,2}));
  else if(ek==1) sq=thr*(1+g.logu(1e-3L,1));
  else sq=thr+g.logu(0.1L*std::min(thr,R(100))+0.01L,L.emax);
  if(sq>2*L.emax) sq=std::max(thr*1.01L,L.emax);
  R cth; switch(g.below(6)){ case 0: cth=g.pickr({0,0.5L,-0.5L,0.95L,-0.95L,1,-1}); break; case 1: cth=(g.flip()?-1:1)*(1-g.logu(1e-6L,0.5L)); break; default: cth=g.uniform(-1,1);} 
  R phi=g.below(3)==0?g.pickr({0,PI/2,PI,-PI/2}):g.uniform(-PI,PI);
  if(!cm(K,sq,cth,phi)) return false;
  c.tag(cth==1||cth==-1?"angle:collinear":(std::abs(cth)>0.999L?"angle:forward":"angle:wide")); c.tag(sq<thr*1.01L?"energy:threshold":(sq>10*thr?"energy:high":"energy:mid"));
  if(frames) genFrame(g,c,K,L,allowRest); else {K.frame="cm";setInv(K);}
  return true;
}
inline void describe(Ctx&c,const Kin&K){ if(!c.verbose)return; for(int i=0;i<4;i++)c.say("p",i+1,"=(",K.k[i][0],",",K.k[i][1],",",K.k[i][2],",",K.k[i][3],") m=",K.m[i]); c.say("frame ",K.frame," sqrt(s)=",K.sqrts," cos(theta)=",K.cost); }
} // namespace scen
