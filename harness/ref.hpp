// Independent reference for tree-level 2->2 Standard Model amplitudes.
//
// Nothing in this file uses the library under test.  Amplitudes are built the
// textbook way: four-component Dirac spinors in the chiral basis, polarisation
// vectors, unitary-gauge propagators, and the vertices of the Lagrangian
//    D_mu = d_mu - i g W^a T^a - i g' Y B      (Peskin & Schroeder signs)
// with a unit CKM matrix and massless neutrinos.  Gauge bosons are kept in the
// real basis (W1,W2,Z,A) so one cubic and one quartic vertex cover everything.
#pragma once
#include <complex>
#include <vector>
#include <array>
#include <string>
#include <cmath>
#include <map>
#include <stdexcept>
#include <algorithm>

namespace ref {
typedef long double R;
typedef std::complex<R> C;
static const C I(0,1);

typedef std::array<R,4> P4;
typedef std::array<C,4> V4;   // contravariant Lorentz vector
typedef std::array<C,4> Sp;   // Dirac spinor (row or column)

inline R mdot(const P4&a,const P4&b){return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3];}
inline C mdot(const V4&a,const V4&b){return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3];}
inline C mdot(const V4&a,const P4&b){return a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3];}
inline P4 add(const P4&a,const P4&b){return {a[0]+b[0],a[1]+b[1],a[2]+b[2],a[3]+b[3]};}
inline P4 sub(const P4&a,const P4&b){return {a[0]-b[0],a[1]-b[1],a[2]-b[2],a[3]-b[3]};}
inline P4 neg(const P4&a){return {-a[0],-a[1],-a[2],-a[3]};}

//---------------------------------------------------------------- model
enum Flav { NE,EL,NM,MU,NL,TA,UQ,DQ,CQ,SQ,TQ,BQ, NFLAV };   // even index = upper member of the doublet
enum Kind { FERMION, VECTOR, SCALAR, GLUON };
enum VSp { W1,W2,ZB,AB };                                   // real vector species

struct Part { Kind kind; int flav; bool anti; int vec; };   // vec: 0=A 1=Z 2=W+ 3=W-

inline Part part(const std::string&n){
  static const std::map<std::string,Part> t={
   {"ne",{FERMION,NE,false,0}},{"Ne",{FERMION,NE,true,0}},{"nm",{FERMION,NM,false,0}},{"Nm",{FERMION,NM,true,0}},
   {"nl",{FERMION,NL,false,0}},{"Nl",{FERMION,NL,true,0}},
   {"e",{FERMION,EL,false,0}},{"E",{FERMION,EL,true,0}},{"m",{FERMION,MU,false,0}},{"M",{FERMION,MU,true,0}},
   {"l",{FERMION,TA,false,0}},{"L",{FERMION,TA,true,0}},
   {"u",{FERMION,UQ,false,0}},{"U",{FERMION,UQ,true,0}},{"d",{FERMION,DQ,false,0}},{"D",{FERMION,DQ,true,0}},
   {"c",{FERMION,CQ,false,0}},{"C",{FERMION,CQ,true,0}},{"s",{FERMION,SQ,false,0}},{"S",{FERMION,SQ,true,0}},
   {"t",{FERMION,TQ,false,0}},{"T",{FERMION,TQ,true,0}},{"b",{FERMION,BQ,false,0}},{"B",{FERMION,BQ,true,0}},
   {"A",{VECTOR,0,false,0}},{"Z",{VECTOR,0,false,1}},{"W+",{VECTOR,0,false,2}},{"W-",{VECTOR,0,false,3}},
   {"h",{SCALAR,0,false,0}},{"g",{GLUON,0,false,0}}};
  auto it=t.find(n); if(it==t.end()) throw std::runtime_error("ref: unknown particle "+n);
  return it->second;
}
inline bool isQuark(int f){return f>=UQ;}
inline R charge(int f){ if(f>=UQ) return (f%2==0)? R(2)/3 : R(-1)/3; return (f%2==0)? R(0) : R(-1); }
inline R iso(int f){ return (f%2==0)? R(1)/2 : R(-1)/2; }

struct Model {
  R e=0.3L, gs=1.2L, SW=0.48L, MW=80.4L, mh=125, wW=0,wZ=0,wh=0;
  R vev=0;                 // 0: derived, 2 MW SW/e
  std::array<R,NFLAV> mf{};
  bool qedOnly=false;
  R CW()const{return std::sqrt(1-SW*SW);}
  R MZ()const{return MW/CW();}
  R g()const{return e/SW;}
  R v()const{return vev!=0?vev:2*MW*SW/e;}
  R mass(const Part&p)const{
    switch(p.kind){case FERMION:return mf[p.flav];case SCALAR:return mh;case GLUON:return 0;
      default:return p.vec==0?R(0):(p.vec==1?MZ():MW);} }
};

//---------------------------------------------------------------- Dirac algebra, chiral basis
// gamma^mu = [[0,sigma^mu],[sigmabar^mu,0]], psi=(psi_L,psi_R), sigma^mu=(1,sigma), sigmabar=(1,-sigma)
struct M4 { C a[4][4]; M4(){for(auto&r:a)for(auto&x:r)x=0;} };
inline M4 slash(const V4&k){ // k_mu gamma^mu
  M4 m; C k0=k[0],k1=k[1],k2=k[2],k3=k[3];
  // k.sigma = k0 - k.sig (upper right), k.sigmabar = k0 + k.sig (lower left)
  m.a[0][2]=k0-k3; m.a[0][3]=-k1+I*k2; m.a[1][2]=-k1-I*k2; m.a[1][3]=k0+k3;
  m.a[2][0]=k0+k3; m.a[2][1]=k1-I*k2;  m.a[3][0]=k1+I*k2;  m.a[3][1]=k0-k3;
  return m;
}
inline M4 slash(const P4&k){V4 v{C(k[0]),C(k[1]),C(k[2]),C(k[3])};return slash(v);}
inline M4 mul(const M4&x,const M4&y){M4 m;for(int i=0;i<4;i++)for(int j=0;j<4;j++){C s=0;for(int k=0;k<4;k++)s+=x.a[i][k]*y.a[k][j];m.a[i][j]=s;}return m;}
inline Sp rmul(const Sp&r,const M4&m){Sp o;for(int j=0;j<4;j++){C s=0;for(int k=0;k<4;k++)s+=r[k]*m.a[k][j];o[j]=s;}return o;}
inline C sdot(const Sp&r,const Sp&c){C s=0;for(int k=0;k<4;k++)s+=r[k]*c[k];return s;}
// m * (gL PL + gR PR): PL projects on components 0,1
inline M4 chir(const M4&m,C gL,C gR){M4 o=m;for(int i=0;i<4;i++){o.a[i][0]*=gL;o.a[i][1]*=gL;o.a[i][2]*=gR;o.a[i][3]*=gR;}return o;}
inline M4 scal(const C&s){M4 m;for(int i=0;i<4;i++)m.a[i][i]=s;return m;}

inline void angles(const P4&p,R&pm,R&c2,R&s2,C&ph){ // half-angle cos, sin and azimuthal phase
  R pt=std::hypot(p[1],p[2]); pm=std::hypot(pt,p[3]);
  R th=(pm==0)?R(0):std::atan2(pt,p[3]);
  c2=std::cos(th/2); s2=std::sin(th/2);
  ph=(pt==0)?C(1):C(p[1]/pt,p[2]/pt);
}
inline std::array<C,2> chi(const P4&p,int lam){
  R pm,c,s;C ph;angles(p,pm,c,s,ph);
  if(lam>0) return {C(c),s*ph};
  return {-s*std::conj(ph),C(c)};
}
inline Sp uSpin(const P4&p,R m,int lam){ // lam=+-1
  R pm=std::hypot(std::hypot(p[1],p[2]),p[3]);
  R big=std::sqrt(p[0]+pm), small=(big==0)?R(0):m/big;
  auto x=chi(p,lam); R l=lam>0?small:big, r=lam>0?big:small;
  return {l*x[0],l*x[1],r*x[0],r*x[1]};
}
inline Sp vSpin(const P4&p,R m,int lam){
  R pm=std::hypot(std::hypot(p[1],p[2]),p[3]);
  R big=std::sqrt(p[0]+pm), small=(big==0)?R(0):m/big;
  auto x=chi(p,-lam); R l=lam>0?big:small, r=lam>0?small:big; R s=lam>0?1:-1;
  return {-s*l*x[0],-s*l*x[1],s*r*x[0],s*r*x[1]};
}
inline Sp bar(const Sp&u){ return {std::conj(u[2]),std::conj(u[3]),std::conj(u[0]),std::conj(u[1])}; }
inline V4 polVec(const P4&p,R m,int lam){ // lam=-1,0,1 incoming
  R pm,c,s;C ph;angles(p,pm,c,s,ph);
  R ct=c*c-s*s, st=2*s*c, cp=ph.real(), sp=ph.imag();
  if(lam==0){ // longitudinal
    return {C(pm/m),C(p[0]/m*st*cp),C(p[0]/m*st*sp),C(p[0]/m*ct)};
  }
  R q=1/std::sqrt(R(2));
  C l=R(lam);
  return {C(0), q*(-l*ct*cp+I*sp), q*(-l*ct*sp-I*cp), q*(l*st)};
}

//---------------------------------------------------------------- legs
struct Leg {
  Part p; bool in; P4 k; /*incoming-convention momentum*/ P4 phys; R m;
  bool psibar; Sp s;                 // fermions
  V4 eps; std::array<C,4> sp;        // vectors: coefficient of each real species
};
inline Leg makeLeg(const Model&md,const Part&pt,bool in,const P4&mom,int ds){
  Leg L; L.p=pt; L.in=in; L.phys=mom; L.k=in?mom:neg(mom); L.m=md.mass(pt); L.psibar=false; L.sp={C(0),C(0),C(0),C(0)};
  if(pt.kind==FERMION){
    int lam=ds>0?1:-1;
    if(in) { if(!pt.anti){L.s=uSpin(mom,L.m,lam);} else {L.s=bar(vSpin(mom,L.m,lam));L.psibar=true;} }
    else   { if(!pt.anti){L.s=bar(uSpin(mom,L.m,lam));L.psibar=true;} else {L.s=vSpin(mom,L.m,lam);} }
  } else if(pt.kind==VECTOR||pt.kind==GLUON){
    int lam=ds>0?1:(ds<0?-1:0);
    L.eps=polVec(mom,L.m,lam);
    if(!in) for(auto&x:L.eps) x=std::conj(x);
    R q=1/std::sqrt(R(2));
    if(pt.kind==VECTOR){
      if(pt.vec==0) L.sp[AB]=1;
      else if(pt.vec==1) L.sp[ZB]=1;
      else { bool plus=(pt.vec==2)==in;   // annihilated by the W+ field
        L.sp[W1]=q; L.sp[W2]=plus? I*q : -I*q; }
    }
  }
  return L;
}

//---------------------------------------------------------------- vertices
// A current together with the size of the terms it was summed from (the `...a` members), which
// is what rounding errors are proportional to.
typedef std::array<R,4> A4;
struct Cur { V4 v[4]; C h; V4 glu; A4 va[4]; R ha; A4 glua; Cur(){for(auto&x:v)x={C(0),C(0),C(0),C(0)};h=0;glu={C(0),C(0),C(0),C(0)};for(auto&x:va)x={0,0,0,0};ha=0;glua={0,0,0,0};} };
inline R adot(const A4&a,const A4&b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]+a[3]*b[3];}
// component errors scale with the whole vector, so the size of a vector is uniform over its components
inline A4 aabs(const V4&v){R n=std::max(std::max(std::abs(v[0]),std::abs(v[1])),std::max(std::abs(v[2]),std::abs(v[3])));return {n,n,n,n};}
inline A4 aabs(const P4&v){R n=std::max(std::max(std::abs(v[0]),std::abs(v[1])),std::max(std::abs(v[2]),std::abs(v[3])));return {n,n,n,n};}
inline A4 armul(const A4&r,const M4&m){A4 o;for(int j=0;j<4;j++){o[j]=0;for(int k=0;k<4;k++)o[j]+=r[k]*std::abs(m.a[k][j]);}return o;}

// chiral couplings of real species sp between psibar_f and psi_f2
inline bool fcoup(const Model&m,int sp,int f,int f2,C&gL,C&gR){
  R g=m.g(),s2=m.SW*m.SW;
  if(sp==W1||sp==W2){
    if(f/2!=f2/2||f==f2) return false;
    if(sp==W1) gL=g/2; else gL=(f%2==0)? -I*(g/2) : I*(g/2);
    gR=0; return true;
  }
  if(f!=f2) return false;
  if(sp==AB){ gL=gR=m.e*charge(f); return charge(f)!=0; }
  gL=g/m.CW()*(iso(f)-s2*charge(f)); gR=g/m.CW()*(-s2*charge(f)); return true;
}
inline M4 fvert(const Model&m,const Leg&b,int f,int f2,bool&ok){ // vertex with external boson b
  ok=true;
  if(b.p.kind==SCALAR){ if(f!=f2||m.mf[f]==0){ok=false;return M4();} return scal(-I*(m.mf[f]/m.v())); }
  if(b.p.kind==GLUON){ if(f!=f2||!isQuark(f)){ok=false;return M4();} return chir(slash(b.eps),I*m.gs,I*m.gs); }
  C gL=0,gR=0;bool any=false;
  for(int s=0;s<4;s++){ if(b.sp[s]==C(0))continue; C l,r; if(fcoup(m,s,f,f2,l,r)){gL+=b.sp[s]*l;gR+=b.sp[s]*r;any=true;} }
  if(!any||(gL==C(0)&&gR==C(0))){ok=false;return M4();}
  return chir(slash(b.eps),I*gL,I*gR);
}
inline V4 fcurrent(const Sp&r,const Sp&c,C gL,C gR,A4*sh=nullptr){ // psibar gamma^mu (gL PL+gR PR) psi, contravariant
  V4 o; 
  for(int mu=0;mu<4;mu++){ V4 e{C(0),C(0),C(0),C(0)}; e[mu]=(mu==0)?1:-1; // slash takes covariant contraction: e_mu gamma^mu with e^mu lowered
    M4 g=chir(slash(e),gL,gR); o[mu]=sdot(rmul(r,g),c); if(sh)(*sh)[mu]+=adot(armul(aabs(r),g),aabs(c)); }
  return o;
}
inline Cur curFF(const Model&m,const Leg&bar_,const Leg&psi){
  Cur J; int f=bar_.p.flav,f2=psi.p.flav;
  for(int s=0;s<4;s++){ if(m.qedOnly&&s!=AB)continue; C l,r; if(fcoup(m,s,f,f2,l,r)) J.v[s]=fcurrent(bar_.s,psi.s,I*l,I*r,&J.va[s]); }
  if(f==f2&&!m.qedOnly) { J.h=-I*(m.mf[f]/m.v())*sdot(bar_.s,psi.s); J.ha=m.mf[f]/m.v()*adot(aabs(bar_.s),aabs(psi.s)); }
  if(f==f2&&isQuark(f)&&!m.qedOnly) J.glu=fcurrent(bar_.s,psi.s,I*m.gs,I*m.gs,&J.glua);
  return J;
}
inline void adj(const Model&m,int s,C c,std::array<C,3>&w){ if(s==W1)w[0]+=c; else if(s==W2)w[1]+=c; else if(s==ZB)w[2]+=c*m.CW(); else w[2]+=c*m.SW; }
inline std::array<C,3> adj(const Model&m,const Leg&l){std::array<C,3> w{C(0),C(0),C(0)};for(int s=0;s<4;s++)adj(m,s,l.sp[s],w);return w;}
inline C det3(const std::array<C,3>&a,const std::array<C,3>&b,const std::array<C,3>&c){
  return a[0]*(b[1]*c[2]-b[2]*c[1])-a[1]*(b[0]*c[2]-b[2]*c[0])+a[2]*(b[0]*c[1]-b[1]*c[0]); }
inline V4 ym3(const Leg&a,const Leg&b,A4*sh=nullptr){ // Lorentz part with open third index, all incoming
  P4 kx=neg(add(a.k,b.k)); C ab=mdot(a.eps,b.eps), ca=mdot(a.eps,sub(b.k,kx)), cb=mdot(b.eps,sub(kx,a.k));
  P4 d=sub(a.k,b.k); V4 o; for(int i=0;i<4;i++) o[i]=ab*d[i]+b.eps[i]*ca+a.eps[i]*cb;
  if(sh){ A4 ea=aabs(a.eps),eb=aabs(b.eps),ka=aabs(a.k),kb=aabs(b.k); A4 kk{ka[0]+kb[0],ka[1]+kb[1],ka[2]+kb[2],ka[3]+kb[3]}; R sab=adot(ea,eb),sa=2*adot(ea,kk),sb=2*adot(eb,kk); for(int i=0;i<4;i++)(*sh)[i]=sab*kk[i]+eb[i]*sa+ea[i]*sb; }
  return o;
}
inline R mV2(const Model&m,int s){ return s==AB?R(0):(s==ZB?m.MZ()*m.MZ():m.MW*m.MW); }
inline Cur curBB(const Model&m,const Leg&a,const Leg&b){
  Cur J; bool va=a.p.kind==VECTOR, vb=b.p.kind==VECTOR;
  if(a.p.kind==GLUON&&b.p.kind==GLUON){ A4 sh; V4 l=ym3(a,b,&sh); for(int i=0;i<4;i++){J.glu[i]=m.gs*l[i];J.glua[i]=m.gs*sh[i];} return J; }
  if(va&&vb){
    auto wa=adj(m,a),wb=adj(m,b); A4 sh; V4 l=ym3(a,b,&sh);
    for(int s=0;s<4;s++){ std::array<C,3> wx{C(0),C(0),C(0)}; adj(m,s,C(1),wx); C f=m.g()*det3(wa,wb,wx); for(int i=0;i<4;i++){J.v[s][i]+=f*l[i];J.va[s][i]+=std::abs(f)*sh[i];} }
    C e=mdot(a.eps,b.eps); for(int s=0;s<4;s++) { C k=I*(2*mV2(m,s)/m.v())*a.sp[s]*b.sp[s]; J.h+=k*e; J.ha+=std::abs(k)*adot(aabs(a.eps),aabs(b.eps)); }
  } else if(va||vb){
    const Leg&V=va?a:b; const Leg&O=va?b:a; if(O.p.kind!=SCALAR) return J;
    for(int s=0;s<4;s++) for(int i=0;i<4;i++){ C k=I*(2*mV2(m,s)/m.v())*V.sp[s]*V.eps[i]; J.v[s][i]+=k; J.va[s][i]+=std::abs(k); }
  } else if(a.p.kind==SCALAR&&b.p.kind==SCALAR) { J.h=-I*(3*m.mh*m.mh/m.v()); J.ha=std::abs(J.h); }
  return J;
}
inline C bwden(const P4&q,R q2,R M,R w){ return C(q2-M*M,M*w)*C(1); }
// propagate and contract; sing=colour singlet exchange, glu=gluon exchange; adds condition measure
struct Ex { C sing=0, glu=0; R mag=0; };
inline Ex exchange(const Model&m,const Cur&J1,const Cur&J2,const P4&q){
  Ex x; R q2=mdot(q,q); A4 qa=aabs(q);
  for(int s=0;s<4;s++){
    bool nz=false; for(int i=0;i<4;i++) if(J1.v[s][i]!=C(0)&&true) nz=true; if(!nz)continue;
    nz=false; for(int i=0;i<4;i++) if(J2.v[s][i]!=C(0)) nz=true; if(!nz)continue;
    R M2=mV2(m,s); C num=mdot(J1.v[s],J2.v[s]); R sz=adot(J1.va[s],J2.va[s]); if(M2>0) sz+=adot(J1.va[s],qa)*adot(J2.va[s],qa)/M2;
    if(M2>0) num-=mdot(J1.v[s],q)*mdot(J2.v[s],q)/M2;
    R w=s==AB?R(0):(s==ZB?m.wZ:m.wW);
    C t=-I*num/C(q2-M2,std::sqrt(M2)*w);
    x.sing+=t; x.mag+=sz/std::abs(C(q2-M2,std::sqrt(M2)*w));
  }
  if(J1.h!=C(0)&&J2.h!=C(0)){ C t=I*J1.h*J2.h/C(q2-m.mh*m.mh,m.mh*m.wh); x.sing+=t; x.mag+=J1.ha*J2.ha/std::abs(C(q2-m.mh*m.mh,m.mh*m.wh)); }
  C gg=mdot(J1.glu,J2.glu); if(gg!=C(0)){ C t=-I*gg/q2; x.glu+=t; x.mag+=adot(J1.glua,J2.glua)/std::abs(q2); }
  return x;
}
inline C quartic(const Model&m,const Leg&a,const Leg&b,const Leg&c,const Leg&d){
  // gauge part, SU(2): f^{abe}f^{cde} = (a.c)(b.d)-(a.d)(b.c)
  auto A=adj(m,a),B=adj(m,b),Cc=adj(m,c),D=adj(m,d);
  auto dt=[](const std::array<C,3>&x,const std::array<C,3>&y){return x[0]*y[0]+x[1]*y[1]+x[2]*y[2];};
  C ac=dt(A,Cc),bd=dt(B,D),ad=dt(A,D),bc=dt(B,Cc),ab=dt(A,B),cd=dt(Cc,D);
  C eab=mdot(a.eps,b.eps),ecd=mdot(c.eps,d.eps),eac=mdot(a.eps,c.eps),ebd=mdot(b.eps,d.eps),ead=mdot(a.eps,d.eps),ebc=mdot(b.eps,c.eps);
  C f1=ac*bd-ad*bc, f2=ab*cd-ad*bc, f3=ab*cd-ac*bd; // f_abe f_cde, f_ace f_bde (=ab.cd-ad.cb), f_ade f_bce (=ab.dc-ac.db)
  R g=m.g();
  return -I*g*g*( f1*(eac*ebd-ead*ebc)+f2*(eab*ecd-ead*ebc)+f3*(eab*ecd-eac*ebd) );
}

//---------------------------------------------------------------- colour bookkeeping (numerical)
struct Colour {
  C T[8][3][3]; R f[8][8][8];
  Colour(){
    for(auto&a:T)for(auto&b:a)for(auto&c:b)c=0;
    R h=R(1)/2; T[0][0][1]=T[0][1][0]=h; T[1][0][1]=-I*h;T[1][1][0]=I*h; T[2][0][0]=h;T[2][1][1]=-h;
    T[3][0][2]=T[3][2][0]=h; T[4][0][2]=-I*h;T[4][2][0]=I*h; T[5][1][2]=T[5][2][1]=h; T[6][1][2]=-I*h;T[6][2][1]=I*h;
    R q=1/(2*std::sqrt(R(3))); T[7][0][0]=T[7][1][1]=q;T[7][2][2]=-2*q;
    for(int a=0;a<8;a++)for(int b=0;b<8;b++)for(int c=0;c<8;c++){ C t=0; // f=-2i Tr([Ta,Tb]Tc)
      for(int i=0;i<3;i++)for(int j=0;j<3;j++)for(int k=0;k<3;k++) t+=(T[a][i][j]*T[b][j][k]-T[b][i][j]*T[a][j][k])*T[c][k][i];
      f[a][b][c]=(C(0,-2)*t).real(); }
    init();
  }
  // structures
  R qqqq[4][4]; // S1,G1 (pairing 1: (1,2)(3,4)), S2,G2 (pairing 2: (1,4)(3,2))  psibar1 psi2 psibar3 psi4
  R qqgg[2][2]; R qqg; R gggg[3][3];
  void init(){
    static const int n=4; for(int x=0;x<n;x++)for(int y=0;y<n;y++)qqqq[x][y]=0;
    for(int i=0;i<3;i++)for(int j=0;j<3;j++)for(int k=0;k<3;k++)for(int l=0;l<3;l++){
      C s[4]={C((i==j&&k==l)?1:0),C(0),C((i==l&&k==j)?1:0),C(0)};
      for(int a=0;a<8;a++){s[1]+=T[a][i][j]*T[a][k][l]; s[3]+=T[a][i][l]*T[a][k][j];}
      for(int x=0;x<4;x++)for(int y=0;y<4;y++)qqqq[x][y]+=(s[x]*std::conj(s[y])).real(); }
    for(auto&r:qqgg)for(auto&x:r)x=0; qqg=0;
    for(int a=0;a<8;a++){ for(int i=0;i<3;i++)for(int j=0;j<3;j++)qqg+=std::norm(T[a][i][j]);
      for(int b=0;b<8;b++)for(int i=0;i<3;i++)for(int j=0;j<3;j++){ C s[2]={C(0),C(0)};
        for(int k=0;k<3;k++){s[0]+=T[a][i][k]*T[b][k][j];s[1]+=T[b][i][k]*T[a][k][j];}
        for(int x=0;x<2;x++)for(int y=0;y<2;y++)qqgg[x][y]+=(s[x]*std::conj(s[y])).real(); } }
    for(auto&r:gggg)for(auto&x:r)x=0;
    for(int a=0;a<8;a++)for(int b=0;b<8;b++)for(int c=0;c<8;c++)for(int d=0;d<8;d++){ R s[3]={0,0,0};
      for(int e=0;e<8;e++){s[0]+=f[a][b][e]*f[c][d][e];s[1]+=f[a][c][e]*f[b][d][e];s[2]+=f[a][d][e]*f[b][c][e];}
      for(int x=0;x<3;x++)for(int y=0;y<3;y++)gggg[x][y]+=s[x]*s[y]; }
  }
};
inline const Colour& colour(){static const Colour c;return c;}

//---------------------------------------------------------------- process
struct Result { std::vector<C> parts; R mag=0; };    // amplitude per colour structure; mag=sum of |diagram|

struct Proc {
  std::array<Part,4> p; bool qed=false;
  int ward=-1;                     // self-test only: this vector leg gets its momentum as polarisation
  int type; // 0: 4 fermion, 1: 2f2b, 2: 4 boson EW, 3: gggg
  int nq=0, ng=0, nf=0;
  std::vector<std::vector<R>> col; // colour matrix
  R norm;                          // 1/(initial averages)*symmetry
  Proc(){}
  Proc(const std::array<std::string,4>&n,bool qed_=false):qed(qed_){
    for(int i=0;i<4;i++){p[i]=part(n[i]); if(p[i].kind==FERMION){nf++; if(isQuark(p[i].flav))nq++;} if(p[i].kind==GLUON)ng++;}
    type = nf==4?0:(nf==2?1:(ng==4?3:2));
    const Colour&c=colour();
    if(type==0){
      if(nq==4){ col.assign(4,std::vector<R>(4)); for(int x=0;x<4;x++)for(int y=0;y<4;y++)col[x][y]=c.qqqq[x][y]; }
      else col={{nq==2?R(3):R(1)}};
    } else if(type==1){
      if(ng==0) col={{nq==2?R(3):R(1)}};
      else if(ng==1) col={{c.qqg}};
      else { col.assign(2,std::vector<R>(2)); for(int x=0;x<2;x++)for(int y=0;y<2;y++)col[x][y]=c.qqgg[x][y]; }
    } else if(type==2) col={{R(1)}};
    else { col.assign(3,std::vector<R>(3)); for(int x=0;x<3;x++)for(int y=0;y<3;y++)col[x][y]=c.gggg[x][y]; }
    R av=1; for(int i=0;i<2;i++){ av*=nspin(p[i]); av*=ncol(p[i]); }
    if(n[2]==n[3]) av*=2;
    norm=1/av;
  }
  static int ncol(const Part&q){return q.kind==GLUON?8:((q.kind==FERMION&&isQuark(q.flav))?3:1);}
  static bool massless(const Part&q){return q.kind==GLUON||(q.kind==VECTOR&&q.vec==0)||neutrino(q);}
  static bool neutrino(const Part&q){return q.kind==FERMION&&q.flav<UQ&&q.flav%2==0;}
  static int nspin(const Part&q){ if(q.kind==SCALAR)return 1; if(neutrino(q))return 1; if(q.kind==FERMION)return 2; return massless(q)?2:3; }
  static std::vector<int> hels(const Part&q){ if(q.kind==SCALAR)return {0}; if(neutrino(q))return {q.anti?1:-1}; if(q.kind==FERMION)return {-1,1}; if(massless(q))return {-2,2}; return {-2,0,2}; }

  Result amp(const Model&md0,const std::array<P4,4>&mom,const std::array<int,4>&ds)const{
    Model md=md0; md.qedOnly=qed;
    Leg L[4]; for(int i=0;i<4;i++)L[i]=makeLeg(md,p[i],i<2,mom[i],ds[i]);
    if(ward>=0) for(int i=0;i<4;i++) L[ward].eps[i]=L[ward].k[i];
    Result r; r.parts.assign(col.size(),C(0));
    if(type==0){
      int b[2],s[2],nb=0,ns=0; for(int i=0;i<4;i++){ if(L[i].psibar)b[nb++]=i; else s[ns++]=i; }
      if(nb!=2||ns!=2) throw std::runtime_error("ref: bad fermion content");
      for(int perm=0;perm<2;perm++){
        const Leg&B1=L[b[0]],&S1=L[s[perm]],&B2=L[b[1]],&S2=L[s[1-perm]];
        R sign=perm?-1:1;
        P4 q=add(B1.k,S1.k);
        Ex x=exchange(md,curFF(md,B1,S1),curFF(md,B2,S2),q);
        if(nq==4){ r.parts[2*perm]+=sign*x.sing; r.parts[2*perm+1]+=sign*x.glu; }
        else if(nq==0||true) r.parts[0]+=sign*x.sing;
        r.mag+=x.mag;
      }
    } else if(type==1){
      int ib=-1,is=-1,bo[2],n=0; for(int i=0;i<4;i++){ if(p[i].kind==FERMION){ if(L[i].psibar)ib=i; else is=i; } else bo[n++]=i; }
      if(ib<0||is<0) throw std::runtime_error("ref: bad fermion content");
      const Leg&B=L[ib],&S=L[is];
      for(int o=0;o<2;o++){ const Leg&b1=L[bo[o]],&b2=L[bo[1-o]]; // psibar b1 prop b2 psi
        P4 q=add(S.k,b2.k); R q2=mdot(q,q);
        int fam=S.p.flav/2;
        for(int f=2*fam;f<2*fam+2;f++){ bool ok1,ok2; M4 v1=fvert(md,b1,B.p.flav,f,ok1), v2=fvert(md,b2,f,S.p.flav,ok2); if(!ok1||!ok2)continue;
          M4 pr=slash(q); for(int i=0;i<4;i++)pr.a[i][i]+=md.mf[f];
          C t=I*sdot(rmul(rmul(rmul(B.s,v1),pr),v2),S.s)/(q2-md.mf[f]*md.mf[f]);
          if(ng==2) r.parts[o]+=t; else r.parts[0]+=t; r.mag+=adot(armul(armul(armul(aabs(B.s),v1),pr),v2),aabs(S.s))/std::abs(q2-md.mf[f]*md.mf[f]); }
      }
      Cur J1=curFF(md,B,S), J2=curBB(md,L[bo[0]],L[bo[1]]);
      Ex x=exchange(md,J1,J2,add(B.k,S.k));
      if(ng==2){ // f^{a b c} T^c = -i [T^a,T^b]
        r.parts[0]+=-I*x.glu; r.parts[1]+=I*x.glu; r.mag+=x.mag;
      } else if(ng==0){ r.parts[0]+=x.sing; r.mag+=x.mag; }
    } else if(type==2){
      static const int ch[3][4]={{0,1,2,3},{0,2,1,3},{0,3,1,2}};
      for(auto&c:ch){ Ex x=exchange(md,curBB(md,L[c[0]],L[c[1]]),curBB(md,L[c[2]],L[c[3]]),add(L[c[0]].k,L[c[1]].k)); r.parts[0]+=x.sing; r.mag+=x.mag; }
      std::vector<int> v,h; for(int i=0;i<4;i++) (p[i].kind==VECTOR?v:h).push_back(i);
      C t=0;
      if(v.size()==4) t=quartic(md,L[0],L[1],L[2],L[3]);
      else if(v.size()==2&&h.size()==2) for(int s=0;s<4;s++) t+=I*(2*mV2(md,s)/(md.v()*md.v()))*L[v[0]].sp[s]*L[v[1]].sp[s]*mdot(L[v[0]].eps,L[v[1]].eps);
      else if(h.size()==4) t=-I*(3*md.mh*md.mh/(md.v()*md.v()));
      r.parts[0]+=t; r.mag+=std::abs(t);
      if(v.size()==4){ R z=1; for(int i=0;i<4;i++){ R y=0; for(auto&e:L[i].eps)y+=std::abs(e); z*=y; } r.mag+=md.g()*md.g()*z; }
      else if(v.size()==2) r.mag+=2*mV2(md,p[v[0]].vec==1?ZB:W1)/(md.v()*md.v())*adot(aabs(L[v[0]].eps),aabs(L[v[1]].eps));
    } else {
      // f_abe f_cde [s-channel 01|23], f_ace f_bde [02|13], f_ade f_bce [03|12]
      static const int ch[3][4]={{0,1,2,3},{0,2,1,3},{0,3,1,2}};
      for(int c=0;c<3;c++){ const Leg&a=L[ch[c][0]],&b=L[ch[c][1]],&cc=L[ch[c][2]],&d=L[ch[c][3]];
        // vertices: gs f^{abe} and gs f^{cde}; same index order -> structure f_abe f_cde
        A4 s1,s2; C t=-I*(md.gs*md.gs)*mdot(ym3(a,b,&s1),ym3(cc,d,&s2))/mdot(add(a.k,b.k),add(a.k,b.k));
        r.parts[c]+=t; r.mag+=md.gs*md.gs*adot(s1,s2)/std::abs(mdot(add(a.k,b.k),add(a.k,b.k))); }
      auto E=[&](int i,int j){return mdot(L[i].eps,L[j].eps);};
      C q1=-I*(md.gs*md.gs)*(E(0,2)*E(1,3)-E(0,3)*E(1,2)), q2=-I*(md.gs*md.gs)*(E(0,1)*E(2,3)-E(0,3)*E(1,2)), q3=-I*(md.gs*md.gs)*(E(0,1)*E(2,3)-E(0,2)*E(1,3));
      r.parts[0]+=q1; r.parts[1]+=q2; r.parts[2]+=q3; r.mag+=std::abs(q1)+std::abs(q2)+std::abs(q3);
    }
    return r;
  }
  R colsum(const std::vector<C>&a)const{ R s=0; for(size_t x=0;x<a.size();x++)for(size_t y=0;y<a.size();y++) s+=col[x][y]*(a[x]*std::conj(a[y])).real(); return s; }
  R colmax()const{R s=0;for(size_t x=0;x<col.size();x++)s=std::max(s,col[x][x]);return s;}
  // sum over helicities (restricted where fix[i]!=99); returns sum; scale gets the sum of squared diagram magnitudes
  R sum(const Model&md,const std::array<P4,4>&mom,const std::array<int,4>&fix,R&scale)const{
    R s=0; scale=0; R cm=colmax();
    std::vector<int> h[4]; for(int i=0;i<4;i++){ h[i]=hels(p[i]); if(fix[i]!=99) h[i]={fix[i]}; }
    for(int a:h[0])for(int b:h[1])for(int c:h[2])for(int d:h[3]){ Result r=amp(md,mom,{a,b,c,d}); s+=colsum(r.parts); scale+=cm*r.mag*r.mag; }
    return s;
  }
  R amp2(const Model&md,const std::array<P4,4>&mom,R&scale)const{ R s=sum(md,mom,{99,99,99,99},scale); scale*=norm; return s*norm; }
};
} // namespace ref
