// Shared pieces of the library-core checks: generated particles and an independent model of
// momenta, spinors and 2x2 algebra kept in long double.
#pragma once
#include "pbt.hpp"
#include "scen.hpp"
#include "spinas.h"
#include <memory>
#include <random>
#include <sys/wait.h>

namespace core {
using namespace scen; using pbt::fail; using pbt::Discard;
typedef ::ldouble LD; typedef ::cdouble CD;
static const bool isLong=sizeof(LD)>8;
static const R EPS=isLong?1.1e-19L:2.3e-16L;
static const R LIBEPS=std::numeric_limits<LD>::epsilon();
inline C c_(const CD&z){ return C((R)z.real(),(R)z.imag()); }
inline CD l_(const C&z){ return CD((LD)z.real(),(LD)z.imag()); }

// ---- 2x2 algebra
struct V2 { C a[2]; };
struct M2 { C a[2][2]; };
inline V2 V(const spinas::cvector&v){ return {{c_(v.get(0)),c_(v.get(1))}}; }
inline M2 M(const spinas::cmatrix&m){ M2 r; for(int i=0;i<2;i++)for(int j=0;j<2;j++)r.a[i][j]=c_(m.get(i,j)); return r; }
inline M2 mul(const M2&x,const M2&y){ M2 r; for(int i=0;i<2;i++)for(int j=0;j<2;j++)r.a[i][j]=x.a[i][0]*y.a[0][j]+x.a[i][1]*y.a[1][j]; return r; }
inline M2 lin(C s,const M2&x,C t,const M2&y){ M2 r; for(int i=0;i<2;i++)for(int j=0;j<2;j++)r.a[i][j]=s*x.a[i][j]+t*y.a[i][j]; return r; }
inline V2 row(const V2&v,const M2&m){ return {{v.a[0]*m.a[0][0]+v.a[1]*m.a[1][0],v.a[0]*m.a[0][1]+v.a[1]*m.a[1][1]}}; }
inline V2 col(const M2&m,const V2&v){ return {{m.a[0][0]*v.a[0]+m.a[0][1]*v.a[1],m.a[1][0]*v.a[0]+m.a[1][1]*v.a[1]}}; }
inline C dot(const V2&x,const V2&y){ return x.a[0]*y.a[0]+x.a[1]*y.a[1]; }
inline M2 outer(const V2&x,const V2&y){ M2 r; for(int i=0;i<2;i++)for(int j=0;j<2;j++)r.a[i][j]=x.a[i]*y.a[j]; return r; }
inline V2 scale(C s,const V2&v){ return {{s*v.a[0],s*v.a[1]}}; }
inline R norm(const V2&v){ return std::max(std::abs(v.a[0]),std::abs(v.a[1])); }
inline R norm(const M2&m){ return std::max(std::max(std::abs(m.a[0][0]),std::abs(m.a[0][1])),std::max(std::abs(m.a[1][0]),std::abs(m.a[1][1]))); }
inline R dist(const V2&x,const V2&y){ R d=0; for(int i=0;i<2;i++){ R e=std::abs(x.a[i]-y.a[i]); if(!(e<=d))d=e; } return d; }
inline R dist(const M2&x,const M2&y){ R d=0; for(int i=0;i<2;i++)for(int j=0;j<2;j++){ R e=std::abs(x.a[i][j]-y.a[i][j]); if(!(e<=d))d=e; } return d; }
inline std::string str(C z){ std::ostringstream o; o<<std::setprecision(20)<<"("<<z.real()<<","<<z.imag()<<")"; return o.str(); }
inline std::string str(const V2&v){ return "{"+str(v.a[0])+", "+str(v.a[1])+"}"; }
inline std::string str(const M2&m){ return "{{"+str(m.a[0][0])+", "+str(m.a[0][1])+"}, {"+str(m.a[1][0])+", "+str(m.a[1][1])+"}}"; }

// ---- generated on-shell momenta (already rounded to the library's type)
struct Q { R m=0; P4 p{{0,0,0,0}}; };
inline R nz(R x){ R y=(R)(LD)x; return y==0?R(0):y; }          // never -0: azimuth of a momentum along z is 0
inline R genPartMass(Gen&g){ switch(g.below(4)){ case 0: return g.pickr({1,2,10,125,0.5L,173}); case 1: return g.uniform(1,200); default: return g.logu(isLong?1e-6L:1e-4L,500); } }
inline void genP(Gen&g,Q&q,R pmax=3000){
  R u[3]; genDir(g,u); R pm;
  switch(g.below(6)){ case 0: pm=g.pickr({1,10,100,3,0.5L,1000}); break; case 1: pm=q.m>0?R(0):R(1); break; case 2: pm=q.m>0?q.m*g.logu(1e-6L,1e-1L):g.logu(1e-3L,1); break; default: pm=g.logu(1e-2L,pmax); }
  pm=std::min(pm,pmax);
  for(int i=0;i<3;i++) q.p[1+i]=nz(pm*u[i]);
  if(g.below(6)==5){ int a=g.range(1,3); R t=pm*g.logu(1e-12L,1e-2L)*(g.flip()?-1:1); q.p[a]=nz(t); }   // nearly planar / nearly axial
  if(q.m==0&&q.p[1]==0&&q.p[2]==0&&q.p[3]==0) q.p[3]=1;
  q.p[0]=(R)(LD)std::sqrt(q.m*q.m+q.p[1]*q.p[1]+q.p[2]*q.p[2]+q.p[3]*q.p[3]);
}
inline Q genQ(Gen&g,int massive=-1,R pmax=3000){ Q q; bool mv=massive<0?g.flip():massive!=0; q.m=mv?(R)(LD)genPartMass(g):R(0); genP(g,q,pmax); return q; }
inline spinas::particle part(const Q&q){ LD p[4]; for(int i=0;i<4;i++)p[i]=(LD)q.p[i]; return spinas::particle(p,(LD)q.m); }
inline void say(Ctx&c,const char*n,const Q&q){ c.say(n," m=",q.m," p=(",q.p[0],",",q.p[1],",",q.p[2],",",q.p[3],")"); }
inline void classify(Ctx&c,const Q&q){ R pt=std::hypot(q.p[1],q.p[2]),pm=std::hypot(pt,q.p[3]); const char*k=pm==0?"at rest":(pt==0?(q.p[3]>0?"along +z":"along -z"):(pt<1e-6L*pm?"near z axis":(q.m>0&&pm>1e3L*q.m?"ultra-relativistic":"generic"))); c.tag(std::string(q.m>0?"massive ":"massless ")+k); }

// ---- reference spinors
enum Kind { RANGLE, LANGLE, LSQUARE, RSQUARE };
static const char*kindName[4]={"|p>","<p|","[p|","|p]"};
struct Sp { R E,P,c,ep,em; C s; };
inline Sp sp(const Q&q){ Sp r; R pt=std::sqrt(q.p[1]*q.p[1]+q.p[2]*q.p[2]); r.P=std::sqrt(pt*pt+q.p[3]*q.p[3]); r.E=q.p[0]; R th=std::atan2(pt,q.p[3]); R ph=pt==0?R(0):std::atan2(q.p[2],q.p[1]); r.c=std::cos(th/2); r.s=std::polar(std::sin(th/2),ph); r.ep=std::sqrt(r.E+r.P); r.em=r.ep>0?q.m/r.ep:R(0); return r; }
inline V2 spinor0(const Q&q,Kind k){ Sp r=sp(q); C c=r.c,s=r.s,t=std::conj(r.s); switch(k){ case RANGLE: return scale(r.ep,{{c,s}}); case LANGLE: return scale(r.ep,{{s,-c}}); case LSQUARE: return scale(r.ep,{{c,t}}); default: return scale(r.ep,{{t,-c}}); } }
// upper-index massive spinors; lower ones follow from the antisymmetric tensor
inline V2 spinorU(const Q&q,Kind k,int j){ Sp r=sp(q); C c=r.c,s=r.s,t=std::conj(r.s);
  switch(k){ case RANGLE: return j<0?scale(r.ep,{{c,s}}):scale(r.em,{{-t,c}}); case LANGLE: return j<0?scale(r.ep,{{s,-c}}):scale(r.em,{{c,t}});
    case LSQUARE: return j<0?scale(r.em,{{s,-c}}):scale(r.ep,{{c,t}}); default: return j<0?scale(r.em,{{-c,-s}}):scale(r.ep,{{t,-c}}); } }
inline V2 spinorM(const Q&q,Kind k,int j,bool up){ return up?spinorU(q,k,j):(j<0?spinorU(q,k,+1):scale(-1,spinorU(q,k,-1))); }
inline V2 libSpinor(spinas::particle&p,Kind k){ switch(k){ case RANGLE: return V(p.rangle()); case LANGLE: return V(p.langle()); case LSQUARE: return V(p.lsquare()); default: return V(p.rsquare()); } }
inline V2 libSpinor(spinas::particle&p,Kind k,int j,int form){ // form 0: lower, 1: upper flag, 2: default overload
  bool up=form!=0; switch(k){ case RANGLE: return form==2?V(p.rangle(j)):V(p.rangle(j,up)); case LANGLE: return form==2?V(p.langle(j)):V(p.langle(j,up)); case LSQUARE: return form==2?V(p.lsquare(j)):V(p.lsquare(j,up)); default: return form==2?V(p.rsquare(j)):V(p.rsquare(j,up)); } }
inline M2 libMatrix(spinas::particle&p,Kind k,int form){ bool up=form!=0; switch(k){ case RANGLE: return form==2?M(p.rangle_matrix()):M(p.rangle_matrix(up)); case LANGLE: return form==2?M(p.langle_matrix()):M(p.langle_matrix(up)); case LSQUARE: return form==2?M(p.lsquare_matrix()):M(p.lsquare_matrix(up)); default: return form==2?M(p.rsquare_matrix()):M(p.rsquare_matrix(up)); } }
inline M2 slash(const Q&q,bool up){ C i(0,1); const P4&p=q.p; M2 r; if(up) r={{{p[0]-p[3],-p[1]+i*p[2]},{-p[1]-i*p[2],p[0]+p[3]}}}; else r={{{p[0]+p[3],p[1]-i*p[2]},{p[1]+i*p[2],p[0]-p[3]}}}; return r; }

// run a case in a child process, so that hidden library state (its random engine) starts afresh
inline void isolated(std::function<void()> f){
  int fd[2]; if(pipe(fd)) throw std::runtime_error("pipe"); fflush(stdout); fflush(stderr);
  pid_t pid=fork(); if(pid<0) throw std::runtime_error("fork");
  if(pid==0){ close(fd[0]); std::string m; int rc=0; try{ f(); }catch(const pbt::Fail&e){ m=e.m; rc=1; }catch(const Discard&){ rc=2; }catch(const std::exception&e){ m=std::string("unexpected exception: ")+e.what(); rc=1; } if(m.size()>60000)m.resize(60000); ssize_t w=write(fd[1],m.data(),m.size()); (void)w; _exit(rc); }
  close(fd[1]); std::string m; char b[4096]; ssize_t n; while((n=read(fd[0],b,sizeof b))>0) m.append(b,n); close(fd[0]); int st; waitpid(pid,&st,0);
  if(WIFSIGNALED(st)) fail("killed by signal ",WTERMSIG(st)); int rc=WEXITSTATUS(st); if(rc==1) throw pbt::Fail(m); if(rc==2) throw Discard(); if(rc!=0) fail("child ended with status ",rc);
}
} // namespace core
