// Shared pieces of the process-level checks.
#pragma once
#include "procs.hpp"
#include "scen.hpp"
#include <memory>
namespace sm {
using namespace scen; using pr::LD; using pr::CD; using pbt::fail;

// Five classes label helicities as for the charge-conjugated process; spin sums are identical.
inline std::array<std::string,4> parts(const pr::Def&d){
  std::string n=d.name;
  if(n=="AZee") return {{"A","Z","e","E"}};
  if(n=="WdWd") return {{"W-","D","W-","D"}};
  if(n=="menn") return {{"m","E","Ne","nm"}};
  if(n=="udnl") return {{"U","d","Nl","l"}};
  if(n=="ulnd") return {{"U","L","Nl","D"}};
  return d.parts;
}
struct Sub { const pr::Def*d; ref::Proc P; };
inline const Sub& sub(const std::string&n){ static std::map<std::string,Sub> c; auto it=c.find(n); if(it==c.end()){ pr::register_all(); const pr::Def*d=pr::find(n); if(!d)throw std::runtime_error("no process "+n); it=c.emplace(n,Sub{d,ref::Proc(parts(*d),d->qed)}).first; } return it->second; }
inline std::vector<std::string> names(std::function<bool(const ref::Proc&)> f){ pr::register_all(); std::vector<std::string> v; for(auto&d:pr::registry()){ if(std::string(d.name)=="eeAZ")continue; ref::Proc P(d.parts,d.qed); if(f(P))v.push_back(d.name);} return v; }

inline R param(const Model&m,const std::string&k){
  if(k=="e")return m.e;if(k=="gs")return m.gs;if(k=="SW")return m.SW;if(k=="MW")return m.MW;if(k=="mh")return m.mh;if(k=="wW")return m.wW;if(k=="wZ")return m.wZ;if(k=="wh")return m.wh;if(k=="vev")return m.vev;
  return m.mf[ref::part(k.substr(2)).flav]; }
inline std::vector<LD> args(const Model&m,const std::vector<std::string>&ks){ std::vector<LD> a; for(auto&k:ks)a.push_back((LD)param(m,k)); a.push_back(0); return a; }
inline std::unique_ptr<pr::Obj> make(const pr::Def&d,const Model&m){ auto a=args(m,d.ctor); return std::unique_ptr<pr::Obj>(d.make(a.data())); }
struct Mom { LD p[4][4]; Mom(const Kin&K){for(int i=0;i<4;i++)for(int j=0;j<4;j++)p[i][j]=(LD)K.k[i][j];} };
inline void setMom(pr::Obj&o,const Kin&K){ Mom q(K); o.set_momenta(q.p[0],q.p[1],q.p[2],q.p[3]); }
inline std::array<R,4> massesOf(const Sub&s,const Model&m){ std::array<R,4> a; for(int i=0;i<4;i++)a[i]=m.mass(s.P.p[i]); return a; }
// library only sees parameters rounded to its own type
inline void roundModel(Model&m){ auto r=[](R&x){x=(R)(LD)x;}; r(m.e);r(m.gs);r(m.SW);r(m.MW);r(m.mh);r(m.wW);r(m.wZ);r(m.wh);r(m.vev);for(auto&x:m.mf)r(x); }
static const bool isLong=sizeof(LD)>8;
static const R EPS=isLong?1.1e-19L:2.3e-16L;
inline Limits limits(){ Limits L; if(!isLong){L.mmin=0.05L;L.emax=800;L.gmax=4;} return L; }

struct Scenario { Model m; Kin K; };
inline Scenario gen(Gen&g,Ctx&c,const Sub&s,bool frames=true,bool allowRest=true){
  Limits L=limits(); Scenario S; S.m=genModel(g,L,c); if(s.d->has_v) S.m.vev=g.uniform(50,500);
  roundModel(S.m);
  if(!genKin(g,c,massesOf(s,S.m),L,S.K,frames,allowRest)) throw pbt::Discard();
  describe(c,S.m); describe(c,S.K); return S;
}
// Amplification of rounding errors at this point: energies against the smallest propagator
// denominator any tree diagram could have.
inline R kcond(const Model&m,const Kin&K){
  R e2=0; for(int i=0;i<4;i++) e2=std::max(e2,K.k[i][0]*K.k[i][0]);
  R dmin=std::abs(K.s); std::vector<R> ms={0,m.MW,m.MZ(),m.mh}; for(R f:m.mf)ms.push_back(f);
  for(R q:{K.s,K.t,K.u}) for(R M:ms) dmin=std::min(dmin,std::abs(q-M*M));
  return std::max(R(1),e2/dmin);
}
// delta: relative rounding error to expect in a single diagram
inline R delta(const Model&m,const Kin&K){ return 5e2L*EPS*kcond(m,K)+5e-15L; }  // the library's literals carry double precision
// tolerance on a squared amplitude y whose diagrams have squared size `scale` (summed the same way)
inline R tol2(R y,R scale,R d,R rel){ return rel*std::abs(y)+2*d*std::sqrt(std::abs(y)*scale)+d*d*scale; }
static const R REL=isLong?1e-11L:1e-9L;
} // namespace sm
