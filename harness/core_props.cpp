// Checks of the library core: spinors, generators, spinor products, 2x2 algebra, propagators,
// Lorentz transformations, spin bookkeeping, the validation harness and the small utilities.
#include "core.hpp"
#include <regex>
using namespace core; using pbt::Property; using pbt::Reg;
using spinas::particle; using spinas::sproduct; using spinas::cmatrix; using spinas::cvector;

static const R T=200*EPS;     // a handful of roundings

// ---------------------------------------------------------------- P09 spinors
static void close(const char*what,const V2&x,const V2&y,R tol,Ctx&c){ c.evals++; R d=dist(x,y); if(!(d<=tol)) fail(what,": ",str(x)," but expected ",str(y)," (difference ",d,", tolerance ",tol,")"); }
static void close(const std::string&what,const V2&x,const V2&y,R tol,Ctx&c){ close(what.c_str(),x,y,tol,c); }
static void close(const std::string&what,const M2&x,const M2&y,R tol,Ctx&c){ c.evals++; R d=dist(x,y); if(!(d<=tol)) fail(what,": ",str(x)," but expected ",str(y)," (difference ",d,", tolerance ",tol,")"); }
static void close(const std::string&what,C x,C y,R tol,Ctx&c){ c.evals++; R d=std::abs(x-y); if(!(d<=tol)) fail(what,": ",str(x)," but expected ",str(y)," (difference ",d,", tolerance ",tol,")"); }
static const M2 ONE={{{1,0},{0,1}}};

static void spinors_massless(Gen&g,Ctx&c){
  Q q=genQ(g,0); say(c,"p",q); classify(c,q); particle p=part(q); R E=q.p[0],S=std::sqrt(2*E);
  V2 v[4]; int ord=(int)g.below(24); int idx[4]={0,1,2,3}; for(int i=3,o=ord;i>0;i--){ std::swap(idx[i],idx[o%(i+1)]); o/=i+1; }
  for(int i:idx) v[i]=libSpinor(p,(Kind)i);
  for(int i=0;i<4;i++) close(std::string("massless spinor ")+kindName[i],v[i],spinor0(q,(Kind)i),T*S,c);
  M2 u=M(p.umat()),l=M(p.lmat()); close("upper momentum matrix",u,slash(q,true),T*E,c); close("lower momentum matrix",l,slash(q,false),T*E,c);
  close("|p>[p| = lower matrix",outer(v[RANGLE],v[LSQUARE]),l,T*E,c); close("|p]<p| = upper matrix",outer(v[RSQUARE],v[LANGLE]),u,T*E,c);
  close("<pp>",dot(v[LANGLE],v[RANGLE]),0,T*E,c); close("[pp]",dot(v[LSQUARE],v[RSQUARE]),0,T*E,c);
  V2 zero{{0,0}}; close("p|p> = 0",col(u,v[RANGLE]),zero,T*E*S,c); close("p|p] = 0",col(l,v[RSQUARE]),zero,T*E*S,c); close("<p|p = 0",row(v[LANGLE],l),zero,T*E*S,c); close("[p|p = 0",row(v[LSQUARE],u),zero,T*E*S,c);
  // brackets of opposite type are conjugates
  for(int i=0;i<2;i++){ close("[p| = conj |p>",std::conj(v[RANGLE].a[i]),v[LSQUARE].a[i],T*S,c); close("|p] = conj <p|",std::conj(v[LANGLE].a[i]),v[RSQUARE].a[i],T*S,c); }
  if(!p.test_angles()) fail("the stored angles do not reproduce the momentum");
  close("p.p",(R)p.dot(p),0,8*T*E*E,c); Q b=genQ(g); particle pb=part(b); close("dot product",(R)p.dot(pb),ref::mdot(q.p,b.p),T*E*b.p[0],c); close("dot product reversed",(R)pb.dot(p),ref::mdot(q.p,b.p),T*E*b.p[0],c);
  for(int i=0;i<4;i++) if((R)p.get_momentum(i)!=q.p[i]) fail("component ",i," of the momentum reads back as ",(R)p.get_momentum(i)); if(p.mass()!=0||p.get_mass()!=0) fail("mass reads back as ",(R)p.mass());
}
static void spinors_massive(Gen&g,Ctx&c){
  Q q=genQ(g,1); say(c,"p",q); classify(c,q); particle p=part(q); R E=q.p[0],m=q.m,S=std::sqrt(2*E);
  V2 v[4][2][2]; // kind, spin, upper
  unsigned start=(unsigned)g.below(16),step=2*(unsigned)g.below(8)+1; for(unsigned k=0;k<16;k++){ unsigned x=(start+k*step)%16; int kd=x&3,j=(x>>2)&1,up=x>>3; v[kd][j][up]=libSpinor(p,(Kind)kd,j?1:-1,up); }
  for(int k=0;k<4;k++)for(int j=0;j<2;j++)for(int up=0;up<2;up++){ std::string nm=std::string("massive spinor ")+kindName[k]+(up?" upper ":" lower ")+(j?"+":"-"); V2 r=spinorM(q,(Kind)k,j?1:-1,up); close(nm,v[k][j][up],r,T*std::max(norm(r),R(1e-300L)),c); if(up) close(nm+" (default index)",libSpinor(p,(Kind)k,j?1:-1,2),v[k][j][1],T*norm(r),c); }
  for(int k=0;k<4;k++)for(int up=0;up<3;up++){ M2 mm=libMatrix(p,(Kind)k,up); for(int j=0;j<2;j++){ V2 cl{{mm.a[0][j],mm.a[1][j]}}; close(std::string("column of the matrix form of ")+kindName[k],cl,v[k][j][up!=0],T*norm(v[k][j][up!=0]),c); } }
  M2 u=M(p.umat()),l=M(p.lmat()); close("upper momentum matrix",u,slash(q,true),T*E,c); close("lower momentum matrix",l,slash(q,false),T*E,c);
  close("upper*lower = m^2",mul(u,l),lin(m*m,ONE,0,ONE),8*T*E*E,c); close("lower*upper = m^2",mul(l,u),lin(m*m,ONE,0,ONE),8*T*E*E,c);
  R eps[2][2]={{0,1},{-1,0}}; // index 0 is spin -1
  for(int a=0;a<2;a++)for(int b=0;b<2;b++){
    R ta=a==b?T*E*2:T*m; // off-diagonal elements are products of large and small components
    close("<pp>^{IJ}",dot(v[LANGLE][a][1],v[RANGLE][b][1]),-m*eps[a][b],ta,c); close("[pp]^{IJ}",dot(v[LSQUARE][a][1],v[RSQUARE][b][1]),m*eps[a][b],ta,c);
    close("<p|^I |p>_J",dot(v[LANGLE][a][1],v[RANGLE][b][0]),a==b?-m:R(0),a==b?T*m:T*E*2,c); close("[p|^I |p]_J",dot(v[LSQUARE][a][1],v[RSQUARE][b][0]),a==b?m:R(0),a==b?T*m:T*E*2,c); }
  auto sum=[&](Kind x,bool ux,Kind y,bool uy){ return lin(1,outer(v[x][0][ux],v[y][0][uy]),1,outer(v[x][1][ux],v[y][1][uy])); };
  close("|p>^I [p|_I",sum(RANGLE,1,LSQUARE,0),l,T*E,c); close("|p>_I [p|^I",sum(RANGLE,0,LSQUARE,1),lin(-1,l,0,l),T*E,c);
  close("|p]_I <p|^I",sum(RSQUARE,0,LANGLE,1),u,T*E,c); close("|p]^I <p|_I",sum(RSQUARE,1,LANGLE,0),lin(-1,u,0,u),T*E,c);
  close("|p>^I <p|_I",sum(RANGLE,1,LANGLE,0),lin(m,ONE,0,ONE),T*E*2,c); close("|p]^I [p|_I",sum(RSQUARE,1,LSQUARE,0),lin(-m,ONE,0,ONE),T*E*2,c);
  for(int j=0;j<2;j++)for(int up=0;up<2;up++){ R t=4*T*E*S; close("p|p> = -m|p]",col(u,v[RANGLE][j][up]),scale(-m,v[RSQUARE][j][up]),t,c); close("<p|p = m[p|",row(v[LANGLE][j][up],l),scale(m,v[LSQUARE][j][up]),t,c); close("p|p] = -m|p>",col(l,v[RSQUARE][j][up]),scale(-m,v[RANGLE][j][up]),t,c); close("[p|p = m<p|",row(v[LSQUARE][j][up],u),scale(m,v[LANGLE][j][up]),t,c); }
  if(!p.test_angles()) fail("the stored angles do not reproduce the momentum");
  close("p.p",(R)p.dot(p),m*m,8*T*E*E,c); if((R)p.mass()!=m||(R)p.get_mass()!=m) fail("mass reads back as ",(R)p.mass()); for(int i=0;i<4;i++) if((R)p.get_momentum(i)!=q.p[i]) fail("component ",i," of the momentum reads back as ",(R)p.get_momentum(i));
  // a particle built from its mass alone is at rest
  particle r((LD)m); Q rest; rest.m=m; rest.p={m,0,0,0}; for(int k=0;k<4;k++)for(int j=-1;j<2;j+=2) close("spinor of a particle built from its mass",libSpinor(r,(Kind)k,j,1),spinorM(rest,(Kind)k,j,true),T*std::sqrt(m),c); close("matrix of a particle built from its mass",M(r.umat()),slash(rest,true),T*m,c);
}
static void c_spinors(Gen&g,Ctx&c){ if(c.subject=="massless") spinors_massless(g,c); else spinors_massive(g,c); }
static Reg r09(Property{"P09",{"massless","massive"},c_spinors,600000,60000000,"one case = one generated on-shell particle with every spinor, momentum matrix and bilinear identity evaluated; distinct by mass and momentum"});

// ---------------------------------------------------------------- P10 generators
static void c_generators(Gen&g,Ctx&c){
  bool massive=c.subject=="massive"; Q q=genQ(g,massive); say(c,"p",q); classify(c,q); particle p=part(q); R E=q.p[0];
  if(g.flip()){ Q o=genQ(g,massive); particle t=part(o); t.lorentz_j3_lu(); t.set_mass((LD)q.m); LD x[4]; for(int i=0;i<4;i++)x[i]=(LD)q.p[i]; t.set_momentum(x); p=t; }
  M2 lu[3]={M(p.lorentz_j3_lu()),M(p.lorentz_jp_lu()),M(p.lorentz_jm_lu())},ul[3]={M(p.lorentz_j3_ul()),M(p.lorentz_jp_ul()),M(p.lorentz_jm_ul())};
  M2 lud[3]={M(p.lorentz_j3_lu_dot()),M(p.lorentz_jp_lu_dot()),M(p.lorentz_jm_lu_dot())},uld[3]={M(p.lorentz_j3_ul_dot()),M(p.lorentz_jp_ul_dot()),M(p.lorentz_jm_ul_dot())};
  M2 slu[3]={M(p.spin_j3_lu()),M(p.spin_jp_lu()),M(p.spin_jm_lu())},sul[3]={M(p.spin_j3_ul()),M(p.spin_jp_ul()),M(p.spin_jm_ul())};
  static const char*jn[3]={"J3","J+","J-"}; Sp r=sp(q); R sn=std::abs(r.s); C ph=sn>0&&std::hypot(q.p[1],q.p[2])>0?C(q.p[1],q.p[2])/std::hypot(q.p[1],q.p[2]):C(1);
  // spin generators in the helicity basis
  close("spin J3",slu[0],{{{-0.5L,0},{0,0.5L}}},T,c); close("spin J+",slu[1],{{{0,0},{-ph,0}}},T,c); close("spin J-",slu[2],{{{0,-std::conj(ph)},{0,0}}},T,c);
  close("spin J3 (lower)",sul[0],{{{0.5L,0},{0,-0.5L}}},T,c); close("spin J+ (lower)",sul[1],{{{0,ph},{0,0}}},T,c); close("spin J- (lower)",sul[2],{{{0,0},{std::conj(ph),0}}},T,c);
  auto comm=[](const M2&a,const M2&b){ return lin(1,mul(a,b),-1,mul(b,a)); };
  auto transpose=[](const M2&a){ M2 t=a; std::swap(t.a[0][1],t.a[1][0]); return t; };
  if(massive){
    R k=(r.E+r.P)/q.m; // size of the larger ladder operator
    struct Set{const char*n;M2*j;R sgn;} sets[6]={{"undotted lower-upper",lu,1},{"undotted upper-lower",ul,1},{"dotted lower-upper",lud,1},{"dotted upper-lower",uld,1},{"spin lower-upper",slu,-1},{"spin upper-lower",sul,-1}};
    for(int s=0;s<6;s++){ M2*j=sets[s].j; R kk=s<4?k:1; R sg=1; // orientation: acting on columns from the left or on rows from the right
      M2 c0=comm(j[0],j[1]); sg=dist(c0,j[1])<=dist(c0,lin(-1,j[1],0,j[1]))?1:-1;
      close(std::string(sets[s].n)+" [J3,J+]",c0,lin(sg,j[1],0,j[1]),16*T*(kk+1)*std::max(R(1),norm(j[1])/kk),c); close(std::string(sets[s].n)+" [J3,J-]",comm(j[0],j[2]),lin(-sg,j[2],0,j[2]),16*T*(kk+1),c); close(std::string(sets[s].n)+" [J+,J-]",comm(j[1],j[2]),lin(2*sg,j[0],0,j[0]),64*T*(kk/k+1),c);
      M2 cas=lin(1,mul(j[0],j[0]),0.5L,lin(1,mul(j[1],j[2]),1,mul(j[2],j[1]))); close(std::string(sets[s].n)+" Casimir",cas,lin(0.75L,ONE,0,ONE),64*T,c); }
    // acting on the spinors is the same as acting on the spin index; both spinors of each kind at once
    for(int a=0;a<3;a++){
      auto act=[&](const char*n,const M2&L,Kind kd,int form,const M2&J){ M2 s=libMatrix(p,kd,form); M2 x=mul(L,s),y=mul(s,J); for(int col=0;col<2;col++){ V2 vx{{x.a[0][col],x.a[1][col]}},vy{{y.a[0][col],y.a[1][col]}}; R t=32*T*(norm(L)*std::max(norm(V2{{s.a[0][col],s.a[1][col]}}),R(0))+norm(vy)); close(std::string(jn[a])+" acting on "+n,vx,vy,t,c); } };
      act("|p>^I",lu[a],RANGLE,1,slu[a]); act("|p>_I",lu[a],RANGLE,0,sul[a]); act("<p|^I",ul[a],LANGLE,1,slu[a]); act("<p|_I",ul[a],LANGLE,0,sul[a]);
      act("[p|^I",lud[a],LSQUARE,1,slu[a]); act("[p|_I",lud[a],LSQUARE,0,sul[a]); act("|p]^I",uld[a],RSQUARE,1,slu[a]); act("|p]_I",uld[a],RSQUARE,0,sul[a]);
    }
  } else {
    // helicity -1/2 for angle, +1/2 for square spinors; the ladder operators annihilate them
    V2 ra=libSpinor(p,RANGLE),la=libSpinor(p,LANGLE),ls=libSpinor(p,LSQUARE),rs=libSpinor(p,RSQUARE); R S=T*8*std::sqrt(2*E); V2 z{{0,0}};
    close("J3|p>",col(lu[0],ra),scale(-0.5L,ra),S,c); close("J3<p|",col(ul[0],la),scale(-0.5L,la),S,c); close("J3[p|",col(lud[0],ls),scale(0.5L,ls),S,c); close("J3|p]",col(uld[0],rs),scale(0.5L,rs),S,c);
    M2 zero{{{0,0},{0,0}}}; close("J+ on |p>",lu[1],zero,T,c); close("J+ on <p|",ul[1],zero,T,c); close("J- on [p|",lud[2],zero,T,c); close("J- on |p]",uld[2],zero,T,c);
    close("J-|p>",col(lu[2],ra),z,S,c); close("J-<p|",col(ul[2],la),z,S,c); close("J+[p|",col(lud[1],ls),z,S,c); close("J+|p]",col(uld[1],rs),z,S,c);
    auto c03=[&](const char*n,M2*j,int a){ M2 x=comm(j[0],j[a]); R sg=dist(x,j[a])<=dist(x,lin(-1,j[a],0,j[a]))?1:-1; close(std::string(n)+" [J3,J] for a massless particle",x,lin(sg,j[a],0,j[a]),32*T,c); if(norm(j[a])<0.5L) fail(n,": the surviving ladder operator vanishes"); };
    c03("|p>",lu,2); c03("<p|",ul,2); c03("[p|",lud,1); c03("|p]",uld,1);
  }
  // the representations are tied together: upper-lower is minus the transpose of lower-upper
  for(int a=0;a<3;a++){ R n=T*8*(1+norm(lu[a])+norm(lud[a])); close(std::string(jn[a])+" upper-lower = - transpose",ul[a],lin(-1,transpose(lu[a]),0,ONE),n,c); close(std::string(jn[a])+" dotted upper-lower = - transpose",uld[a],lin(-1,transpose(lud[a]),0,ONE),n,c); }
}
static Reg r10(Property{"P10",{"massless","massive"},c_generators,400000,40000000,"one case = one generated particle with all eighteen generators, their algebra and their action on every spinor; distinct by mass and momentum"});

// ---------------------------------------------------------------- spinor products
struct Chain { bool angle; int L,Rt; bool iL,iR; int ctor; std::vector<int> mid; };
static std::unique_ptr<sproduct> build(const Chain&h,particle*ps){
  particle*l=&ps[h.L],*r=&ps[h.Rt]; std::vector<particle*> m; for(int i:h.mid)m.push_back(&ps[i]); bool a=h.angle; sproduct*s=nullptr;
  #define CT(MID) switch(h.ctor){ case 0: s=new sproduct(a,l,MID r); break; case 1: s=new sproduct(a,l,h.iL,MID r); break; case 2: s=new sproduct(a,l,MID r,h.iR); break; default: s=new sproduct(a,l,h.iL,MID r,h.iR); }
  #define X(i) m[i],
  switch(m.size()){ case 0: CT() break; case 1: CT(X(0)) break; case 2: CT(X(0) X(1)) break; case 3: CT(X(0) X(1) X(2)) break; case 4: CT(X(0) X(1) X(2) X(3)) break; case 5: CT(X(0) X(1) X(2) X(3) X(4)) break; default: CT(X(0) X(1) X(2) X(3) X(4) X(5)) }
  #undef X
  #undef CT
  return std::unique_ptr<sproduct>(s);
}
static C chainRef(const Chain&h,const std::vector<Q>&q,int jl,int jr,R&mag){
  bool ang=h.angle; Kind kl=ang?LANGLE:LSQUARE; const Q&L=q[h.L]; V2 v=L.m>0?spinorM(L,kl,jl,h.iL):spinor0(L,kl); mag=std::sqrt(2*L.p[0]);
  for(int i:h.mid){ v=row(v,slash(q[i],!ang)); mag*=2*q[i].p[0]; ang=!ang; }
  Kind kr=ang?RANGLE:RSQUARE; const Q&Rr=q[h.Rt]; mag*=std::sqrt(2*Rr.p[0])*2; return dot(v,Rr.m>0?spinorM(Rr,kr,jr,h.iR):spinor0(Rr,kr));
}
static Chain genChain(Gen&g,const std::vector<Q>&q,int n){
  Chain h; h.angle=!g.flip(); h.L=(int)g.below(q.size()); h.Rt=(int)g.below(q.size()); bool ml=q[h.L].m>0,mr=q[h.Rt].m>0; h.ctor=(int)g.below(4); h.iL=h.iR=true;
  if(h.ctor&1) h.iL=!(ml&&g.flip()); if(h.ctor&2) h.iR=!(mr&&g.flip());
  for(int i=0;i<n;i++) h.mid.push_back((int)g.below(q.size())); return h;
}
static std::string show(const Chain&h){ std::ostringstream o; o<<(h.angle?"<":"[")<<h.L<<(h.ctor&1?(h.iL?"^":"_"):"")<<"|"; for(int i:h.mid)o<<" p"<<i; bool a=h.angle^(h.mid.size()%2); o<<" |"<<h.Rt<<(h.ctor&2?(h.iR?"^":"_"):"")<<(a?">":"]"); return o.str(); }
static C value(sproduct&s,bool ml,bool mr,int jl,int jr){ return c_(ml?(mr?s.v(jl,jr):s.v(jl)):(mr?s.v(jr):s.v())); }
static void compareChain(sproduct&s,const Chain&h,const std::vector<Q>&q,Gen&g,Ctx&c,const char*ctx){
  bool ml=q[h.L].m>0,mr=q[h.Rt].m>0; int first=(int)g.below(4);
  for(int k=0;k<4;k++){ int x=(first+k)%4,jl=x&1?1:-1,jr=x&2?1:-1; if(!ml&&jl>0)continue; if(!mr&&jr>0)continue; R mag; C e=chainRef(h,q,jl,jr,mag),v=value(s,ml,mr,jl,jr); R t=T*(h.mid.size()+1)*mag; c.evals++; if(!(std::abs(v-e)<=t)) fail(ctx," ",show(h)," at spins (",jl,",",jr,") is ",str(v),", the spinors and momenta give ",str(e)," (tolerance ",t,")"); C w=value(s,ml,mr,jl,jr); if(w!=v) fail(ctx," ",show(h)," changed from ",str(v)," to ",str(w)," when asked twice"); }
}
static void c_chains(Gen&g,Ctx&c){
  int n=c.subject[0]-'0'; int np=g.range(2,4); std::vector<Q> q; for(int i=0;i<np;i++){ q.push_back(genQ(g,-1,n>3?R(300):R(3000))); }
  std::vector<particle> ps; for(auto&x:q){ ps.push_back(part(x)); }
  for(int i=0;i<np;i++){ char b[4]={'p',char('0'+i),0,0}; say(c,b,q[i]); classify(c,q[i]); }
  Chain h=genChain(g,q,n); c.say("chain ",show(h)); c.tag(std::string("ends ")+(q[h.L].m>0?"massive":"massless")+"-"+(q[h.Rt].m>0?"massive":"massless")+(h.angle?" angle":" square")); c.tag("constructor "+std::to_string(h.ctor));
  auto s=build(h,ps.data()); compareChain(*s,h,q,g,c,"chain");
  // reading the chain from the other end: every step across an epsilon tensor costs a sign
  { Chain rv=h; rv.angle=h.angle^(n%2); rv.L=h.Rt; rv.Rt=h.L; rv.iL=h.iR; rv.iR=h.iL; rv.ctor=3; std::reverse(rv.mid.begin(),rv.mid.end()); auto t=build(rv,ps.data()); bool ml=q[h.L].m>0,mr=q[h.Rt].m>0;
    for(int jl=-1;jl<2;jl+=2)for(int jr=-1;jr<2;jr+=2){ if(!ml&&jl>0)continue; if(!mr&&jr>0)continue; R mag; chainRef(h,q,jl,jr,mag); C a=value(*s,ml,mr,jl,jr),b=value(*t,mr,ml,jr,jl); R sg=n%2?1:-1; c.evals++; if(!(std::abs(a-sg*b)<=2*T*(n+1)*mag)) fail("chain ",show(h)," is ",str(a)," but reversed ",show(rv)," is ",str(b)," (expected ",sg," times it)"); } }
  // a copy refers to the same particles and gives the same values
  { sproduct k=*s; compareChain(k,h,q,g,c,"copied chain"); }
  if(n==0&&q[h.L].m==0&&q[h.Rt].m==0&&h.L!=h.Rt){ sproduct a(ANGLE,&ps[h.L],&ps[h.Rt]),b(SQUARE,&ps[h.Rt],&ps[h.L]); R d=ref::mdot(q[h.L].p,q[h.Rt].p); C e=c_(a.v())*c_(b.v()); if(!(std::abs(e-2*d)<=8*T*q[h.L].p[0]*q[h.Rt].p[0])) fail("<ij>[ji] = ",str(e)," but 2pi.pj = ",2*d); }
}
static Reg r12(Property{"P12",{"0 inner momenta","1 inner momentum","2 inner momenta","3 inner momenta","4 inner momenta","5 inner momenta","6 inner momenta"},c_chains,200000,25000000,"one case = one generated chain (bracket type, ends massive or massless, spin indices up or down, constructor form, 0-6 inner momenta) over generated particles, all spins; distinct by the whole recorded case"});

// ---------------------------------------------------------------- P11 histories of particles and products
static void compareParticle(particle&p,const Q&q,Gen&g,Ctx&c,const char*ctx){
  R S=std::sqrt(2*q.p[0])+1e-300L; int what=(int)g.below(4); 
  for(int k=0;k<4;k++) switch((what+k)%4){
    case 0: { M2 u=M(p.umat()); if(!(dist(u,slash(q,true))<=T*q.p[0])) fail(ctx,": upper momentum matrix ",str(u)," does not belong to the current momentum ",str(slash(q,true))); break; }
    case 1: { M2 u=M(p.lmat()); if(!(dist(u,slash(q,false))<=T*q.p[0])) fail(ctx,": lower momentum matrix ",str(u)," does not belong to the current momentum ",str(slash(q,false))); break; }
    case 2: { int o=(int)g.below(16); for(int k2=0;k2<16;k2++){ int x=(o+k2)%16,kd=x&3; if(q.m>0){ int j=x&4?1:-1; bool up=!(x&8); V2 a=libSpinor(p,(Kind)kd,j,up?(x&4?2:1):0),b=spinorM(q,(Kind)kd,j,up); c.evals++; if(!(dist(a,b)<=T*S)) fail(ctx,": spinor ",kindName[kd],up?" upper ":" lower ",j," is ",str(a)," but the current momentum gives ",str(b)); } else if(x<4){ V2 a=libSpinor(p,(Kind)kd),b=spinor0(q,(Kind)kd); c.evals++; if(!(dist(a,b)<=T*S)) fail(ctx,": spinor ",kindName[kd]," is ",str(a)," but the current momentum gives ",str(b)); } } break; }
    default: { for(int i=0;i<4;i++) if((R)p.get_momentum(i)!=q.p[i]) fail(ctx,": momentum component ",i," reads ",(R)p.get_momentum(i)," after setting ",q.p[i]); if((R)p.mass()!=q.m||(R)p.get_mass()!=q.m) fail(ctx,": mass reads ",(R)p.mass()," after setting ",q.m); M2 a=M(p.lorentz_jp_lu()),b=M(part(q).lorentz_jp_lu()); if(!(dist(a,b)<=T*norm(b))) fail(ctx,": J+ generator does not belong to the current momentum"); break; }
  }
}
static void touch(particle&p,const Q&q,Gen&g){ // evaluate some cached quantities
  int n=g.range(0,6); for(int i=0;i<n;i++){ int x=(int)g.below(18); if(x==16) p.umat(); else if(x==17) p.lmat(); else if(q.m>0) libSpinor(p,(Kind)(x&3),x&4?1:-1,x&8?0:1); else libSpinor(p,(Kind)(x&3)); }
}
static void c_history(Gen&g,Ctx&c){
  const int NP=3; std::vector<Q> q(NP); std::vector<particle> ps(NP); std::vector<bool> init(NP,false);
  struct Live { Chain h; std::unique_ptr<sproduct> s; bool fresh; bool massL,massR; }; std::vector<Live> ch;
  auto setQ=[&](int i){ Q n; bool keepMass=init[i]&&g.flip(); n.m=keepMass?q[i].m:(g.flip()?(R)(LD)genPartMass(g):R(0)); genP(g,n,800); LD x[4]; for(int k=0;k<4;k++)x[k]=(LD)n.p[k];
    if(!init[i]||g.below(4)==0){ ps[i]=particle(x,(LD)n.m); } else { if(!keepMass||g.flip()) ps[i].set_mass((LD)n.m); if(g.below(5)==4){ LD bad[4]={x[0]*(LD)1.5+1,x[1],x[2],x[3]}; bool thrown=false; try{ ps[i].set_momentum(bad); }catch(const std::exception&){thrown=true;} if(!thrown) fail("an off-shell momentum was accepted"); c.tag("rejected momentum"); } ps[i].set_momentum(x); }
    q[i]=n; init[i]=true; c.say("set particle ",i," m=",n.m," p=(",n.p[0],",",n.p[1],",",n.p[2],",",n.p[3],")"); for(auto&l:ch) if(l.h.L==i||l.h.Rt==i||std::count(l.h.mid.begin(),l.h.mid.end(),i)) l.fresh=false; };
  for(int i=0;i<NP;i++) setQ(i);
  int ops=g.range(1,12); c.tag("operations "+std::to_string((ops+3)/4*4));
  // a chain whose massless end has a lower index is invalid: only refresh chains that are valid now
  auto valid=[&](const Chain&h){ return !(q[h.L].m==0&&!h.iL)&&!(q[h.Rt].m==0&&!h.iR); };
  for(int o=0;o<ops;o++){ int i=(int)g.below(NP); switch(g.below(8)){
    case 0: case 1: setQ(i); break;
    case 2: touch(ps[i],q[i],g); c.say("evaluate some spinors of ",i); break;
    case 3: compareParticle(ps[i],q[i],g,c,"particle with a history"); c.say("compare particle ",i); break;
    case 4: if(ch.size()<4){ Chain h=genChain(g,q,(int)g.below(7)); ch.push_back({h,build(h,ps.data()),true,false,false}); c.say("new chain ",show(h)); } else { auto&l=ch[g.below(ch.size())]; l.h=genChain(g,q,(int)g.below(7)); *l.s=*build(l.h,ps.data()); l.fresh=true; c.say("assign chain ",show(l.h)); c.tag("assigned chain"); } break;
    case 5: if(!ch.empty()){ auto&l=ch[g.below(ch.size())]; if(valid(l.h)){ l.s->update(); l.fresh=true; compareChain(*l.s,l.h,q,g,c,"updated chain"); c.say("update and compare chain ",show(l.h)); } } break;
    case 6: if(!ch.empty()){ auto&l=ch[g.below(ch.size())]; if(l.fresh) { compareChain(*l.s,l.h,q,g,c,"chain with a history"); c.say("compare chain ",show(l.h)); } } break;
    default: { particle k=ps[i]; compareParticle(k,q[i],g,c,"copy of a particle"); Q n=genQ(g,-1,800); k.set_mass((LD)n.m); LD x[4]; for(int z=0;z<4;z++)x[z]=(LD)n.p[z]; k.set_momentum(x); compareParticle(k,n,g,c,"copy given a new momentum"); compareParticle(ps[i],q[i],g,c,"original after its copy moved on"); c.say("copy particle ",i); }
  } }
  for(auto&l:ch) if(valid(l.h)){ l.s->update(); compareChain(*l.s,l.h,q,g,c,"chain at the end of the history"); }
  for(int i=0;i<NP;i++) compareParticle(ps[i],q[i],g,c,"particle at the end of the history");
  if(ops<2) c.trivial=true;
}
static Reg r11(Property{"P11",{"particles and products"},c_history,1200000,100000000,"one case = a generated sequence of up to 12 operations (set mass/momentum, rejected momentum, cached evaluation, copy, build/update/read a chain) over three particles; trivial when it has fewer than two operations"});

// ---------------------------------------------------------------- P13 2x2 algebra
static C genC(Gen&g){ auto r=[&]()->R{ switch(g.below(4)){ case 0: return g.pickr({0,1,-1,2,0.5L,-3}); case 1: return g.uniform(-2,2); default: return (g.flip()?-1:1)*g.logu(1e-6L,1e4L);} }; R a=r(),b=r(); return C((R)(LD)a,(R)(LD)b); }
static M2 genM(Gen&g){ M2 m; for(auto&r:m.a)for(auto&x:r)x=genC(g); return m; }
static V2 genV(Gen&g){ return {{genC(g),genC(g)}}; }
static cmatrix L(const M2&m){ return cmatrix(l_(m.a[0][0]),l_(m.a[0][1]),l_(m.a[1][0]),l_(m.a[1][1])); }
static cvector L(const V2&v){ return cvector(l_(v.a[0]),l_(v.a[1])); }
static const char*algSubjects[]={"matrix sums","matrix products","matrix scalars","matrix quotients","matrix determinant","matrix from momentum","vector products","vector scalars","comparison","aliasing"};
static void c_algebra(Gen&g,Ctx&c){
  const std::string&s=c.subject; M2 a=genM(g),b=genM(g); V2 v=genV(g),w=genV(g); c.say("A=",str(a)); c.say("B=",str(b)); c.say("v=",str(v)); c.say("w=",str(w)); cmatrix A=L(a),B=L(b); cvector X=L(v),W=L(w);
  R na=norm(a),nb=norm(b),nv=norm(v),nw=norm(w); R t2=T*na*nb*2,ts=T*(na+nb);
  auto un=[&]{ close("an operand changed",M(A),a,0,c); close("an operand changed",M(B),b,0,c); close("an operand changed",V(X),v,0,c); close("an operand changed",V(W),w,0,c); };
  C z=genC(g); if(std::abs(z)<1e-3L) z+=C(1,0); z=C((R)(LD)z.real(),(R)(LD)z.imag()); R x=(R)(LD)(g.flip()?g.uniform(-20,20):g.logu(1e-4L,1e4L)); if(std::abs(x)<1e-5L)x=1; int n=g.below(3)==0?g.range(-2147483647,2147483646):g.range(-9,9); if(n==0)n=3; R nA=std::abs((R)n); CD zl=l_(z); LD xl=(LD)x; c.say("scalars ",str(z)," ",x," ",n);
  if(s=="matrix sums"){
    close("A+B",M(A+B),lin(1,a,1,b),ts,c); close("A-B",M(A-B),lin(1,a,-1,b),ts,c); close("-A",M(-A),lin(-1,a,0,a),0,c); un();
    { cmatrix k=A; cmatrix&r=(k+=B); close("A+=B",M(k),lin(1,a,1,b),ts,c); if(&r!=&k) fail("+= does not return its left operand"); } { cmatrix k=A; cmatrix&r=(k-=B); close("A-=B",M(k),lin(1,a,-1,b),ts,c); if(&r!=&k) fail("-= does not return its left operand"); } { cmatrix k=A; (k+=B)-=B; close("A+B-B",M(k),a,2*ts,c); } close("default matrix",M(cmatrix()),{{{0,0},{0,0}}},0,c); un();
  } else if(s=="matrix products"){
    close("A*B",M(A*B),mul(a,b),t2,c); close("B*A",M(B*A),mul(b,a),t2,c); { cmatrix k=A; cmatrix&r=(k*=B); close("A*=B",M(k),mul(a,b),t2,c); if(&r!=&k) fail("*= does not return its left operand"); } M2 d=genM(g); cmatrix D=L(d); close("(A*B)*D",M((A*B)*D),mul(a,mul(b,d)),8*T*na*nb*norm(d),c); close("A*(B+D)",M(A*(B+D)),lin(1,mul(a,b),1,mul(a,d)),8*T*na*(nb+norm(d)),c); un();
  } else if(s=="matrix scalars"){
    M2 za=lin(z,a,0,a),xa=lin(x,a,0,a),ia=lin(n,a,0,a); R tz=T*na*std::abs(z)*2,tx=T*na*std::abs(x),ti=T*na*nA;
    close("A*z",M(A*zl),za,tz,c); close("z*A",M(zl*A),za,tz,c); close("A*x",M(A*xl),xa,tx,c); close("x*A",M(xl*A),xa,tx,c); close("A*n",M(A*n),ia,ti,c); close("n*A",M(n*A),ia,ti,c); close("A*0",M(A*0),{{{0,0},{0,0}}},0,c);
    { cmatrix k=A; cmatrix&r=(k*=zl); close("A*=z",M(k),za,tz,c); if(&r!=&k) fail("*= does not return its left operand"); } { cmatrix k=A; cmatrix&r=(k*=xl); close("A*=x",M(k),xa,tx,c); if(&r!=&k) fail("*= does not return its left operand"); } { cmatrix k=A; cmatrix&r=(k*=n); close("A*=n",M(k),ia,ti,c); if(&r!=&k) fail("*= does not return its left operand"); } un();
  } else if(s=="matrix quotients"){
    M2 za=lin(C(1)/z,a,0,a),xa=lin(1/x,a,0,a),ia=lin(R(1)/n,a,0,a); R tz=4*T*na/std::abs(z),tx=T*na/std::abs(x),ti=T*na;
    close("A/z",M(A/zl),za,tz,c); close("A/x",M(A/xl),xa,tx,c); close("A/n",M(A/n),ia,ti,c);
    { cmatrix k=A; cmatrix&r=(k/=zl); close("A/=z",M(k),za,tz,c); if(&r!=&k) fail("/= does not return its left operand"); } { cmatrix k=A; cmatrix&r=(k/=xl); close("A/=x",M(k),xa,tx,c); if(&r!=&k) fail("/= does not return its left operand"); } { cmatrix k=A; cmatrix&r=(k/=n); close("A/=n",M(k),ia,ti,c); if(&r!=&k) fail("/= does not return its left operand"); } un();
  } else if(s=="matrix determinant"){
    M2 h=a; h.a[0][0]=C(a.a[0][0].real()); h.a[1][1]=C(a.a[1][1].real()); h.a[1][0]=std::conj(h.a[0][1]); R k=norm(h); if(k>100){ for(auto&r:h.a)for(auto&e:r){ e=C((R)(LD)(e.real()/k),(R)(LD)(e.imag()/k)); } k=norm(h); } h.a[1][0]=std::conj(h.a[0][1]); R d=(h.a[0][0]*h.a[1][1]-h.a[0][1]*h.a[1][0]).real(); cmatrix H=L(h); close("determinant of a hermitian matrix",(R)H.get_det(),d,8*T*k*k,c); close("determinant function",(R)det(H),d,8*T*k*k,c);
    M2 rr=a; for(auto&r:rr.a)for(auto&e:r)e=C(e.real()); close("determinant of a real matrix",(R)L(rr).get_det(),(rr.a[0][0]*rr.a[1][1]-rr.a[0][1]*rr.a[1][0]).real(),8*T*norm(rr)*norm(rr),c);
    C cd=a.a[0][0]*a.a[1][1]-a.a[0][1]*a.a[1][0]; if(std::abs(cd.imag())>1e-6L+1e3L*EPS*na*na){ for(int f=0;f<2;f++){ bool thrown=false; try{ if(f) det(A); else A.get_det(); }catch(const std::domain_error&){ thrown=true; } if(!thrown) fail("a complex determinant ",str(cd)," was returned as a real number"); } c.tag("complex determinant"); }
  } else if(s=="matrix from momentum"){
    Q q=genQ(g); LD p[4]; for(int i=0;i<4;i++)p[i]=(LD)q.p[i]; say(c,"p",q); R E=q.p[0]; M2 u=M(cmatrix(p,true)),l=M(cmatrix(p,false)); close("upper matrix of a momentum",u,slash(q,true),T*E,c); close("lower matrix of a momentum",l,slash(q,false),T*E,c);
    P4 any{{genC(g).real(),genC(g).real(),genC(g).imag(),genC(g).real()}}; Q f; f.p=any; LD y[4]; for(int i=0;i<4;i++)y[i]=(LD)any[i]; R nn=0; for(R e:any)nn=std::max(nn,std::abs(e)); close("upper matrix of any four-vector",M(cmatrix(y,true)),slash(f,true),T*2*nn,c); close("lower matrix of any four-vector",M(cmatrix(y,false)),slash(f,false),T*2*nn,c); if(nn<30) close("determinant is the invariant square",(R)cmatrix(y,true).get_det(),ref::mdot(any,any),16*T*nn*nn,c);
    for(int i=0;i<2;i++)for(int j=0;j<2;j++) close("element read back",c_(A.get(i,j)),a.a[i][j],0,c);
  } else if(s=="vector products"){
    close("v*w",c_(X*W),dot(v,w),T*4*nv*nw,c); close("v*A",V(X*A),row(v,a),T*4*nv*na,c); close("A*v",V(A*X),col(a,v),T*4*nv*na,c); close("outer(v,w)",M(outer(X,W)),core::outer(v,w),T*2*nv*nw,c); V2 cj{{std::conj(v.a[0]),std::conj(v.a[1])}}; close("conjugate",V(X.get_conjugate()),cj,0,c); close("(v*A)*w",c_((X*A)*W),dot(v,col(a,w)),T*16*nv*nw*na,c); CD arr[2]={l_(v.a[0]),l_(v.a[1])}; close("vector from array",V(cvector(arr)),v,0,c); close("default vector",V(cvector()),V2{{0,0}},0,c); for(int i=0;i<2;i++) close("component read back",c_(X.get(i)),v.a[i],0,c); un();
  } else if(s=="vector scalars"){
    R tz=T*nv*std::abs(z)*2,tx=T*nv*std::abs(x); close("v*z",V(X*zl),scale(z,v),tz,c); close("z*v",V(zl*X),scale(z,v),tz,c); close("v*x",V(X*xl),scale(x,v),tx,c); close("x*v",V(xl*X),scale(x,v),tx,c); close("v*n",V(X*n),scale(n,v),T*nv*nA,c); close("n*v",V(n*X),scale(n,v),T*nv*nA,c); close("-v",V(-X),scale(-1,v),0,c); close("v*0",V(X*0),V2{{0,0}},0,c); un();
  } else if(s=="comparison"){
    // differences far above or far below rounding noise, in one component, real or imaginary
    if(na>1e3L){ a=lin(1/na,a,0,a); A=L(a); a=M(A); } if(nv>1e3L){ v=scale(1/nv,v); X=L(v); v=V(X); }
    if(!(A==A)||A!=A||!(X==X)||X!=X) fail("a finite value does not equal itself"); 
    bool big=g.flip(); R d=big?g.logu(isLong?1e-9L:1e-6L,10):g.uniform(0,1)*(isLong?1e-14L:2e-11L); C dz=g.flip()?C(d):C(0,d); if(g.flip())dz=-dz; int i=(int)g.below(2),j=(int)g.below(2); M2 a2=a; a2.a[i][j]+=dz; V2 v2=v; v2.a[i]+=dz; cmatrix A2=L(a2); cvector X2=L(v2); c.say(big?"clearly different":"rounding noise"," by ",str(dz)," in component ",i,",",j); c.tag(big?"different":"noise");
    if((A==A2)!=!big||(A2==A)!=!big||(A!=A2)!=big||(A2!=A)!=big) fail("matrices differing by ",str(dz)," in element ",i,j," compare as ",A==A2?"equal":"different"); if((X==X2)!=!big||(X2==X)!=!big||(X!=X2)!=big||(X2!=X)!=big) fail("vectors differing by ",str(dz)," in component ",i," compare as ",X==X2?"equal":"different");
    M2 an=a; an.a[i][j]=C(g.flip()?NAN:0.0L,NAN); V2 vn=v; vn.a[i]=C(NAN,g.flip()?NAN:0.0L); if(A==L(an)||L(an)==A||!(A!=L(an))) fail("a matrix with a NaN element equals another matrix"); if(X==L(vn)||L(vn)==X||!(X!=L(vn))) fail("a vector with a NaN component equals another vector");
  } else { // aliasing
    { cmatrix k=A; k+=k; close("A+=A",M(k),lin(2,a,0,a),T*na*2,c); } { cmatrix k=A; k-=k; close("A-=A",M(k),{{{0,0},{0,0}}},0,c); } { cmatrix k=A; k*=k; close("A*=A",M(k),mul(a,a),4*T*na*na,c); } close("A*A",M(A*A),mul(a,a),4*T*na*na,c); close("A+A",M(A+A),lin(2,a,0,a),2*T*na,c); close("v*v",c_(X*X),dot(v,v),4*T*nv*nv,c); close("outer(v,v)",M(outer(X,X)),core::outer(v,v),2*T*nv*nv,c); { cmatrix k=A; k=k*B; close("A=A*B",M(k),mul(a,b),t2,c); } { cmatrix k=B; k=A*k; close("B=A*B",M(k),mul(a,b),t2,c); } { cvector k=X; k=k*A; close("v=v*A",V(k),row(v,a),T*4*nv*na,c); k=X; k=A*k; close("v=A*v",V(k),col(a,v),T*4*nv*na,c); } un();
  }
}
static Reg r13(Property{"P13",std::vector<std::string>(std::begin(algSubjects),std::end(algSubjects)),c_algebra,300000,30000000,"one case = generated matrices, vectors and scalars pushed through every operator of one group and compared with an independent evaluation; distinct by operands"});

// ---------------------------------------------------------------- P14 propagator
static void c_propagator(Gen&g,Ctx&c){
  R m=g.below(4)==0?R(0):(R)(LD)g.logu(1e-4L,1e3L),w=g.below(3)==0?R(0):(R)(LD)g.logu(1e-4L,100); spinas::propagator P; int how=(int)g.below(4);
  if(how==0){ m=w=0; c.tag("default"); } else P=spinas::propagator((LD)m,(LD)w);
  auto check=[&](const char*when){ P4 p; for(R&x:p) x=(R)(LD)((g.flip()?-1:1)*(g.below(5)==0?R(0):g.logu(1e-3L,3e3L))); if(g.below(3)==0) p[0]=(R)(LD)std::sqrt(m*m+p[1]*p[1]+p[2]*p[2]+p[3]*p[3]); LD q[4]; for(int i=0;i<4;i++)q[i]=(LD)p[i]; C d=c_(P.denominator(q)); R n=p[0]*p[0]+p[1]*p[1]+p[2]*p[2]+p[3]*p[3]+m*m; c.say(when," m=",m," w=",w," p=(",p[0],",",p[1],",",p[2],",",p[3],") denominator ",str(d)); close(std::string("denominator ")+when,d,C(ref::mdot(p,p)-m*m,-m*w),T*n+T*m*w,c); R ti=T*m*w; if(!(std::abs(d.imag()+m*w)<=ti)) fail("imaginary part ",d.imag()," of the denominator, expected ",-m*w," (",when,")"); C d2=c_(P.denominator(q)); if(d!=d2) fail("denominator changes when asked twice"); LD r[4]; for(int i=0;i<4;i++)r[i]=-q[i]; if(c_(P.denominator(r))!=d) fail("denominator depends on the sign of the momentum"); };
  check("initially"); int n=g.range(0,5); for(int i=0;i<n;i++){ if(g.flip()){ m=g.below(4)==0?R(0):(R)(LD)g.logu(1e-4L,1e3L); P.set_mass((LD)m); check("after set_mass"); } else { w=g.below(3)==0?R(0):(R)(LD)g.logu(1e-4L,100); P.set_width((LD)w); check("after set_width"); } if(g.below(4)==3){ spinas::propagator K=P; K.set_mass(77); K.set_width(3); check("after changing a copy"); } }
  if(n==0&&how==0)c.trivial=true;
}
static Reg r14(Property{"P14",{"propagator"},c_propagator,3000000,100000000,"one case = a propagator with a generated history of mass and width changes read at generated momenta (on shell, off shell, spacelike); trivial when it is default constructed and never changed"});

// ---------------------------------------------------------------- P15 rotations and boosts
static P4 libRot(const P4&p,const R u[3],R th){ LD m[4],v[3]; for(int i=0;i<4;i++)m[i]=(LD)p[i]; for(int i=0;i<3;i++)v[i]=(LD)u[i]; spinas::rotate_momentum(m,v,(LD)th); for(int i=0;i<3;i++) if(v[i]!=(LD)u[i]) fail("the axis was modified"); return {(R)m[0],(R)m[1],(R)m[2],(R)m[3]}; }
static P4 libBoost(const P4&p,const R u[3]){ LD m[4],v[3]; for(int i=0;i<4;i++)m[i]=(LD)p[i]; for(int i=0;i<3;i++)v[i]=(LD)u[i]; spinas::boost_momentum(m,v); for(int i=0;i<3;i++) if(v[i]!=(LD)u[i]) fail("the velocity was modified"); return {(R)m[0],(R)m[1],(R)m[2],(R)m[3]}; }
static void near(const std::string&what,const P4&a,const P4&b,R t,Ctx&c){ c.evals++; for(int i=0;i<4;i++) if(!(std::abs(a[i]-b[i])<=t)) fail(what,": (",a[0],",",a[1],",",a[2],",",a[3],") but expected (",b[0],",",b[1],",",b[2],",",b[3],"), tolerance ",t); }
static R size(const P4&p){ R n=0; for(R x:p)n=std::max(n,std::abs(x)); return n; }
static void unit(Gen&g,R u[3]){ genDir(g,u); R n=std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2]); for(int i=0;i<3;i++)u[i]=(R)(LD)(u[i]/n); }
static void c_rotate(Gen&g,Ctx&c){
  Q q=genQ(g); P4 p=q.p; if(g.below(4)==3) for(R&x:p) x=(R)(LD)g.uniform(-100,100); R u[3]; unit(g,u); auto ang=[&]{ return (R)(LD)(g.below(3)==0?g.pickr({0,PI/2,PI,-PI/2,2*PI,3*PI/2,-PI,4*PI}):g.uniform(-8,8)); }; R th=ang(); R n=size(p),t=64*T*n; c.say("p=(",p[0],",",p[1],",",p[2],",",p[3],") axis (",u[0],",",u[1],",",u[2],") angle ",th); c.tag(th<0?"negative angle":(th>PI?"angle above pi":"angle in [0,pi]"));
  R Mx[3][3]; rotmat(Mx,u,th); P4 e=rotate(p,Mx),r=libRot(p,u,th); near("rotation",r,e,t,c); if(r[0]!=p[0]) fail("a rotation changed the energy from ",p[0]," to ",r[0]);
  R th2=ang(); near("two rotations about one axis",libRot(r,u,th2),libRot(p,u,(R)(LD)(th+th2)),4*t+n*16*EPS,c); near("inverse rotation",libRot(r,u,-th),p,4*t,c); R mu[3]={-u[0],-u[1],-u[2]}; near("opposite axis",libRot(p,mu,-th),r,4*t,c); P4 ax{{n,u[0],u[1],u[2]}}; near("the axis itself",libRot(ax,u,th),ax,64*T*std::max(n,R(1)),c); P4 o=genQ(g).p; R d0=ref::mdot(p,o),d1=ref::mdot(r,libRot(o,u,th)); if(!(std::abs(d0-d1)<=256*T*n*size(o))) fail("a rotation changed a scalar product from ",d0," to ",d1);
}
static void c_boost(Gen&g,Ctx&c){
  Q q=genQ(g); P4 p=q.p; if(g.below(4)==3) for(R&x:p) x=(R)(LD)g.uniform(-100,100); R u[3]; unit(g,u); R b; switch(g.below(5)){ case 0: b=g.pickr({0,0.5L,0.6L,0.8L,0.99L,0.1L}); break; case 1: b=g.logu(1e-12L,1e-1L); break; case 2: b=1-g.logu(1e-6L,1e-1L); break; default: b=g.uniform(0,0.99L); }
  R v[3]; for(int i=0;i<3;i++)v[i]=(R)(LD)(b*u[i]); R v2=v[0]*v[0]+v[1]*v[1]+v[2]*v[2]; R bb=std::sqrt(v2),ga=1/std::sqrt((1-bb)*(1+bb)),n=size(p); c.say("p=(",p[0],",",p[1],",",p[2],",",p[3],") v=(",v[0],",",v[1],",",v[2],")"); c.tag(b==0?"no boost":(b<1e-3L?"slow":(b>0.99L?"fast":"moderate")));
  R t=256*T*n*ga*ga*ga; if(bb==0){ near("zero boost",libBoost(p,v),p,0,c); return; }
  R dir[3]={-v[0]/bb,-v[1]/bb,-v[2]/bb}; P4 e=boost(p,dir,bb),r=libBoost(p,v); near("boost",r,e,t,c);
  R mv[3]={-v[0],-v[1],-v[2]}; near("inverse boost",libBoost(r,mv),p,4*t*ga*ga,c); P4 o=genQ(g).p; R d0=ref::mdot(p,o),d1=ref::mdot(r,libBoost(o,v)); if(!(std::abs(d0-d1)<=16*t*size(o)*ga)) fail("a boost changed a scalar product from ",d0," to ",d1);
  P4 rest{{n>0?n:R(1),0,0,0}}; P4 rr=libBoost(rest,v); P4 er{{rest[0]*ga,-rest[0]*ga*v[0],-rest[0]*ga*v[1],-rest[0]*ga*v[2]}}; near("boost of a particle at rest",rr,er,256*T*rest[0]*ga*ga*ga,c);
  if(q.m>0&&g.flip()){ Q k=q; R pm=std::sqrt(k.p[1]*k.p[1]+k.p[2]*k.p[2]+k.p[3]*k.p[3]); if(pm/k.m<1e3L&&pm>0){ R w[3]; for(int i=0;i<3;i++)w[i]=(R)(LD)(k.p[1+i]/k.p[0]); R gk=k.p[0]/k.m; P4 z{{k.m,0,0,0}}; near("boost to the rest frame",libBoost(k.p,w),z,512*T*k.p[0]*gk*gk*gk,c); c.tag("to rest frame"); } }
  // combining boosts along one direction adds rapidities
  R b2=g.uniform(-0.9L,0.9L); R w[3],s[3]; R bsum=(bb+b2)/(1+bb*b2); for(int i=0;i<3;i++){ w[i]=(R)(LD)(b2*v[i]/bb); s[i]=(R)(LD)(bsum*v[i]/bb); } R gs=1/std::sqrt((1-bsum)*(1+bsum)); near("two boosts along one direction",libBoost(r,w),libBoost(p,s),1024*T*n*(ga*ga*ga*6+gs*gs*gs+1),c);
}
static void c_lorentz(Gen&g,Ctx&c){ if(c.subject=="rotation") c_rotate(g,c); else c_boost(g,c); }
static Reg r15(Property{"P15",{"rotation","boost"},c_lorentz,2000000,100000000,"one case = one generated momentum with a rotation (any axis, angle from -8 to 8) or boost (|v| from 0 to 1-1e-6), checked against an independent formula and the group laws; distinct by all inputs"});

// ---------------------------------------------------------------- P16 spin bookkeeping
static void c_spins(Gen&g,Ctx&c){
  int len=c.subject[0]-'0'; if(c.subject.substr(0,4)=="list") len=g.range(0,12); bool list=c.subject.substr(0,4)=="list"; std::vector<int> ds; for(int i=0;i<len;i++) ds.push_back(g.range(-2,2)); if(!list&&g.flip()) for(int&d:ds) d=(d>0)-(d<0); spinas::process P; int zeros=0; for(int d:ds) zeros+=d==0; std::ostringstream o; for(int d:ds)o<<d<<" "; c.say("spins ",o.str()); c.tag(std::to_string(zeros)+" longitudinal"); if(zeros==0)c.trivial=true;
  int n; R norm; const int*d=ds.data();
  auto spins=[&](int it,std::vector<int>&a,std::vector<int>&b){ a.assign(len+1,99); b.assign(len+1,99); if(list){ std::vector<const int*> p; std::vector<int*> pa,pb; for(int i=0;i<len;i++){p.push_back(&ds[i]);pa.push_back(&a[i]);pb.push_back(&b[i]);} P.get_spinor_spins(p.data(),pa.data(),pb.data(),len,it); } else switch(len){
      case 1: P.get_spinor_spins(d[0],a[0],b[0],it); break; case 2: P.get_spinor_spins(d[0],a[0],b[0],d[1],a[1],b[1],it); break; case 3: P.get_spinor_spins(d[0],a[0],b[0],d[1],a[1],b[1],d[2],a[2],b[2],it); break; case 4: P.get_spinor_spins(d[0],a[0],b[0],d[1],a[1],b[1],d[2],a[2],b[2],d[3],a[3],b[3],it); break;
      case 5: P.get_spinor_spins(d[0],a[0],b[0],d[1],a[1],b[1],d[2],a[2],b[2],d[3],a[3],b[3],d[4],a[4],b[4],it); break; default: P.get_spinor_spins(d[0],a[0],b[0],d[1],a[1],b[1],d[2],a[2],b[2],d[3],a[3],b[3],d[4],a[4],b[4],d[5],a[5],b[5],it); } };
  if(list){ n=P.get_num_spin_loops(d,len); norm=P.get_spin_normalization(d,len); } else switch(len){
    case 1: n=P.get_num_spin_loops(d[0]); norm=P.get_spin_normalization(d[0]); break; case 2: n=P.get_num_spin_loops(d[0],d[1]); norm=P.get_spin_normalization(d[0],d[1]); break; case 3: n=P.get_num_spin_loops(d[0],d[1],d[2]); norm=P.get_spin_normalization(d[0],d[1],d[2]); break; case 4: n=P.get_num_spin_loops(d[0],d[1],d[2],d[3]); norm=P.get_spin_normalization(d[0],d[1],d[2],d[3]); break;
    case 5: n=P.get_num_spin_loops(d[0],d[1],d[2],d[3],d[4]); norm=P.get_spin_normalization(d[0],d[1],d[2],d[3],d[4]); break; default: n=P.get_num_spin_loops(d[0],d[1],d[2],d[3],d[4],d[5]); norm=P.get_spin_normalization(d[0],d[1],d[2],d[3],d[4],d[5]); }
  if(n!=1<<zeros) fail("spins ",o.str(),": ",n," terms, expected ",1<<zeros); R e=std::pow(R(0.5L),R(zeros)/2); if(!(std::abs(norm-e)<=1e-14L*e)) fail("spins ",o.str(),": normalisation ",norm,", expected ",e);
  std::set<std::vector<int>> seen; for(int it=0;it<n;it++){ std::vector<int> a,b; spins(it,a,b); c.evals++; for(int i=0;i<len;i++){ if((a[i]!=1&&a[i]!=-1)||(b[i]!=1&&b[i]!=-1)) fail("spins ",o.str(),": term ",it," gives leg ",i," spinor spins ",a[i],",",b[i]); int want=ds[i]>0?2:(ds[i]<0?-2:0); if(a[i]+b[i]!=want) fail("spins ",o.str(),": term ",it," gives leg ",i," spinor spins ",a[i],",",b[i]," for spin ",ds[i]); } if(a[len]!=99||b[len]!=99) fail("wrote past the end"); if(!seen.insert(a).second) fail("spins ",o.str(),": term ",it," repeats an earlier one"); }
  // norm^2 * number of terms is 1: the symmetrised state is normalised
  if(!(std::abs(norm*norm*n-1)<=1e-13L)) fail("normalisation^2 times number of terms is ",norm*norm*n);
}
static Reg r16(Property{"P16",{"1 leg","2 legs","3 legs","4 legs","5 legs","6 legs","list"},c_spins,300000,20000000,"one case = one list of spin projections with every term of its decomposition enumerated; trivial when no projection is zero; distinct by the list"});

// ---------------------------------------------------------------- P17 validation harness
struct Probe : spinas::process { std::vector<std::array<P4,4>> seen; void set_momenta(const ldouble a[4],const ldouble b[4],const ldouble c[4],const ldouble d[4]) override { std::array<P4,4> k; const ldouble*q[4]={a,b,c,d}; for(int i=0;i<4;i++)for(int j=0;j<4;j++)k[i][j]=q[i][j]; seen.push_back(k); } };
static void advance(Gen&g){ int n=(int)g.below(2000); for(int i=0;i<n;i++) spinas::choose_random_int(0,1); }
static void c_validate(Gen&g,Ctx&c){
  const std::string&s=c.subject; std::array<R,4> m; for(R&x:m) x=g.below(4)==0?R(0):(R)(LD)g.logu(isLong?1e-3L:1e-2L,150); if(g.below(3)==0){m[1]=m[0];m[3]=m[2];} R Pin; { R need=m[2]+m[3]; R lo=0.05L; for(int i=0;i<60&&std::hypot(lo,m[0])+std::hypot(lo,m[1])<need*1.02L;i++) lo*=1.3L; Pin=(R)(LD)(lo*(1+g.logu(0.05L,20))); if(Pin>1500) throw Discard(); }
  c.say("masses ",m[0]," ",m[1]," ",m[2]," ",m[3]," beam momentum ",Pin);
  R E1=std::hypot(Pin,m[0]),E2=std::hypot(Pin,m[1]),sq=E1+E2,pf=std::sqrt((sq-m[2]-m[3])*(sq+m[2]+m[3])*(sq-m[2]+m[3])*(sq+m[2]-m[3]))/(2*sq); if(!(pf>0)) throw Discard();
  bool lab=s=="laboratory"||s=="score",rot=s=="rotations",bst=s=="boosts",br=s=="boosts and rotations"; int per=lab?1:10; R rel=(lab||rot)?1e-9L:1e-8L,abst=s=="score"?1e-20L:1e-15L; (void)br;
  // reference data and which of the twenty points the tested amplitude gets wrong
  LD data[20]; std::vector<int> kind(20); std::vector<R> off(20); R base=g.logu(1e-6L,1e4L)*(g.below(6)==5?-1:1); int expected=0; R expScore=0;
  int mode=(int)g.below(3); // 0: all right, 1: some wrong, 2: anything
  for(int j=0;j<20;j++){ data[j]=(LD)(base*(1+0.5L*std::sin(R(j+1)))); if(mode==2&&g.below(6)==5) data[j]=(LD)(abst*g.uniform(0.01L,0.3L)); if(mode>0&&g.below(6)==5) data[j]=0; kind[j]=mode==0?(int)g.below(2):(int)g.below(mode==1?3:8); }
  std::vector<LD> val(20); for(int j=0;j<20;j++){ R d=data[j],v=d; bool bad=false; switch(kind[j]){ case 0: break; case 1: v=d*(1+(g.flip()?-1:1)*rel*g.uniform(0,0.5L)); break; case 2: v=d*(1+(g.flip()?-1:1)*rel*g.logu(8,1e6L)); bad=true; break; case 3: v=-d; bad=true; break; case 4: v=NAN; bad=true; break; case 5: v=INFINITY; if(g.flip())v=-v; bad=true; break; case 6: v=0; bad=true; break; default: v=d*g.uniform(1.5L,3); bad=true; } if(d==0&&kind[j]>=2&&std::isfinite((double)v)) v=base*g.uniform(0.1L,2);
    val[j]=(LD)v; v=val[j]; if(std::isfinite((double)v)&&std::abs(v-d)<=abst*0.9L) bad=false; if(std::isfinite((double)v)&&bad&&std::abs(v-d)<abst*1.5L&&std::abs(v-d)>abst*0.5L) throw Discard(); if(std::isfinite((double)v)&&bad&&std::abs(v-d)<=abst) bad=false; if(bad){ expected+=per; expScore+=std::abs(v-d)/std::abs(v+d); } }
  c.tag(expected==0?"all points right":(expected==20*per?"all points wrong":"some points wrong"));
  isolated([&]{
    advance(g); Probe P; LD M_[4]; for(int i=0;i<4;i++)M_[i]=(LD)m[i]; R denom=2*Pin*pf;
    auto index=[&](const std::array<P4,4>&k){ R t=ref::mdot(k[0],k[2]); R ct=(k[0][0]*k[2][0]-t)/(Pin*pf); (void)ct; R E3=std::hypot(pf,m[2]); R cth=(E1*E3-t)/(Pin*pf); R jj=(0.95L-cth)/0.1L; return jj; };
    auto amp=[&]()->LD{ if(P.seen.empty()) fail("the amplitude was evaluated before any momenta were set"); R jj=index(P.seen.back()); int j=(int)std::lround(jj); if(j<0||j>19||std::abs(jj-j)>1e-4L) fail("the amplitude was evaluated at cos(theta) = ",0.95L-0.1L*jj,", which is not one of the twenty points"); return val[j]; };
    int got=-1; R score=-1; LD pr[10]={1,2,3,4,5,6,7,8,9,10}; const LD*gotp=nullptr;
    if(s=="laboratory") got=P.test_2to2_amp2(amp,M_[0],M_[1],M_[2],M_[3],(LD)Pin,data); else if(rot) got=P.test_2to2_amp2_rotations(amp,M_[0],M_[1],M_[2],M_[3],(LD)Pin,data); else if(bst) got=P.test_2to2_amp2_boosts(amp,M_[0],M_[1],M_[2],M_[3],(LD)Pin,data); else if(s=="score") score=P.score_2to2_amp2([&](const LD*x){gotp=x;for(int i=0;i<10;i++)if(x[i]!=(LD)(i+1))fail("parameters not passed on");return amp();},M_[0],M_[1],M_[2],M_[3],(LD)Pin,data,pr); else got=P.test_2to2_amp2_boosts_and_rotations(amp,M_[0],M_[1],M_[2],M_[3],(LD)Pin,data);
    if(s=="score"){ if(std::isnan((double)expScore)||std::isinf((double)expScore)){ if(score==0||std::isfinite((double)score)) fail("score ",score," for an amplitude that is not finite or has the opposite sign"); } else if(!(std::abs(score-expScore)<=1e-6L*(std::abs(expScore))+(expected?R(0):R(0)))) fail("score ",score,", the deviations add up to ",expScore); if((expected==0)!=(score==0)) fail("score ",score," with ",expected," wrong points"); }
    else if(got!=expected) fail("reported ",got," mismatches, ",expected," points were wrong (",per," evaluations each)");
    if((int)P.seen.size()!=20*per) fail(P.seen.size()," momentum configurations used, expected ",20*per);
    std::vector<int> hits(20,0); R gmax=1; bool movedBeam=false,spread=false; std::set<std::string> distinct; R minx=2,maxx=-2;
    for(auto&k:P.seen){ int j=(int)std::lround(index(k)); hits[j]++; R E=0; for(int i=0;i<4;i++)E=std::max(E,k[i][0]); for(int a=0;a<4;a++){ R d=k[0][a]+k[1][a]-k[2][a]-k[3][a]; if(!(std::abs(d)<=64*T*E+1e-17L*E)) fail("momentum component ",a," is not conserved: ",d); } for(int i=0;i<4;i++){ R q2=ref::mdot(k[i],k[i]); if(!(std::abs(q2-m[i]*m[i])<=512*T*E*E*8+1e-16L*E*E)) fail("leg ",i+1," has invariant square ",q2,", mass squared ",m[i]*m[i]); if(!(k[i][0]>0)) fail("leg ",i+1," has non-positive energy"); }
      P4 tot=ref::add(k[0],k[1]); R sh=ref::mdot(tot,tot); if(!(std::abs(sh-sq*sq)<=4096*T*E*E+1e-16L*E*E)) fail("invariant mass squared ",sh,", expected ",sq*sq); R pt=std::sqrt(tot[1]*tot[1]+tot[2]*tot[2]+tot[3]*tot[3]); gmax=std::max(gmax,tot[0]/std::sqrt(sh)); bool cmf=pt<=1e-12L*tot[0]; if((lab||rot)&&!cmf) fail("total momentum ",pt," in a frame that should be the centre of mass"); R pb=std::sqrt(k[0][1]*k[0][1]+k[0][2]*k[0][2]+k[0][3]*k[0][3]); R cz=k[0][3]/pb; if(lab&&!(std::abs(cz-1)<1e-12L)) fail("the beam is not along +z in the laboratory frame"); if(std::abs(cz-1)>1e-3L) movedBeam=true; minx=std::min(minx,cz);maxx=std::max(maxx,cz); if(!cmf)spread=true; std::ostringstream o; o<<std::setprecision(8)<<(double)k[0][1]<<","<<(double)k[0][2]<<","<<(double)k[0][3]<<","<<(double)k[0][0]; distinct.insert(o.str()); }
    for(int j=0;j<20;j++) if(hits[j]!=per) fail("point ",j," was evaluated ",hits[j]," times, expected ",per);
    if(rot||br){ if(!movedBeam) fail("no configuration was actually rotated"); if(maxx-minx<0.3L) fail("the rotated beams all point the same way"); } if(bst||br){ if(!spread||gmax<1.05L) fail("no configuration was actually boosted"); } if(!lab&&distinct.size()<190) fail("only ",distinct.size()," of 200 transformed configurations are different"); (void)denom; (void)gotp;
  });
}
static void c_setup(Gen&g,Ctx&c){ // the kinematics helpers on their own
  std::array<R,4> m; for(R&x:m) x=g.below(4)==0?R(0):(R)(LD)g.logu(1e-2L,150); R Pin=(R)(LD)g.logu(1,1500); R E1=std::hypot(Pin,m[0]),E2=std::hypot(Pin,m[1]),sq=E1+E2; if(sq<=(m[2]+m[3])*1.0001L) throw Discard(); Probe P; LD e1,e2,po,e3,e4; P.set_test_initializations((LD)m[0],(LD)m[1],(LD)m[2],(LD)m[3],(LD)Pin,e1,e2,po,e3,e4); R pf=std::sqrt((sq-m[2]-m[3])*(sq+m[2]+m[3])*(sq-m[2]+m[3])*(sq+m[2]-m[3]))/(2*sq); R t=T*sq*64; c.say("masses ",m[0]," ",m[1]," ",m[2]," ",m[3]," beam momentum ",Pin);
  R tp=t*std::max(R(1),sq/pf); close("beam energy",C((R)e1),C(E1),t,c); close("target energy",C((R)e2),C(E2),t,c); close("outgoing momentum",C((R)po),C(pf),tp,c); close("outgoing energy",C((R)e3),C(std::hypot(pf,m[2])),t*4,c); close("outgoing energy",C((R)e4),C(std::hypot(pf,m[3])),t*4,c);
  R ct=(R)(LD)g.uniform(-1,1); LD p[4][4]; P.set_test_momenta(p[0],p[1],p[2],p[3],e1,e2,(LD)Pin,e3,e4,po,(LD)ct); R po_=po; R sn=std::sqrt((1-ct)*(1+ct)); R want[4][4]={{(R)e1,0,0,Pin},{(R)e2,0,0,-Pin},{(R)e3,po_*sn,0,po_*ct},{(R)e4,-po_*sn,0,-po_*ct}}; for(int i=0;i<4;i++)for(int j=0;j<4;j++) close("momentum of leg "+std::to_string(i+1)+" component "+std::to_string(j),C((R)p[i][j]),C(want[i][j]),t+po_*std::sqrt(8*EPS)*(std::abs(ct)>1-1e-6L?1:1e-4L)*0+po_*16*EPS/std::max(sn,std::sqrt(EPS)),c);
}
static void c_harness(Gen&g,Ctx&c){ if(c.subject=="kinematics") c_setup(g,c); else c_validate(g,c); }
static Reg r17(Property{"P17",{"laboratory","rotations","boosts","boosts and rotations","score","kinematics"},c_harness,15000,1500000,"one case = one validation run over the twenty angles with a generated set of right, wrong and non-finite values, the reported count compared with the true one and every momentum configuration inspected; distinct by the recorded case"});

// ---------------------------------------------------------------- P18 misuse
static void mustThrow(const std::string&what,std::function<void()> f,Ctx&c){ c.evals++; bool t=false; try{ f(); }catch(const std::exception&){ t=true; } if(!t) fail(what," was accepted"); }
static int badSpin(Gen&g){ int k; do{ k=g.below(3)==0?(int)g.pickr({0,2,-2,3,-3}):g.range(-1000000,1000000); }while(k==1||k==-1); return k; }
static void c_misuse(Gen&g,Ctx&c){
  const std::string&s=c.subject; Q q0=genQ(g,0),qm=genQ(g,1); say(c,"massless",q0); say(c,"massive",qm); particle p0=part(q0),pm=part(qm); bool warm=g.flip(); if(warm){ touch(p0,q0,g); touch(pm,qm,g); c.tag("after use"); }
  if(s=="off-shell momenta"){
    Q q=g.flip()?q0:qm; LD x[4]; for(int i=0;i<4;i++)x[i]=(LD)q.p[i]; R gap=g.logu(isLong?1e-8L:1e-5L,1e3L)+16*EPS*q.p[0]*q.p[0]*1e3L; R p2=q.p[0]*q.p[0]; LD y[4]={x[0],x[1],x[2],x[3]}; const char*how;
    switch(g.below(5)){ case 0: y[0]=(LD)std::sqrt(p2+gap); how="energy too large"; break; case 1: if(p2-gap<=0){ y[0]=(LD)std::sqrt(p2+gap); } else y[0]=(LD)std::sqrt(p2-gap); how="energy too small"; break; case 2: { int a=g.range(1,3); R v=q.p[a]; y[a]=(LD)((v<0?-1:1)*std::sqrt(v*v+gap)); how="momentum too large"; break; } case 3: { int a=(int)g.below(4); y[a]=(LD)(g.flip()?NAN:(g.flip()?INFINITY:-INFINITY)); how="component not finite"; break; } default: { how="mass wrong"; } }
    c.say(how,": (",(R)y[0],",",(R)y[1],",",(R)y[2],",",(R)y[3],")"); c.tag(how); bool massWrong=std::string(how)=="mass wrong"; LD mass=(LD)q.m; if(massWrong){ mass=(LD)std::sqrt(q.m*q.m+gap); if(g.below(8)==7) mass=(LD)NAN; }
    mustThrow(std::string("constructing a particle with ")+how,[&]{ particle k(y,mass); },c); particle k=part(q); if(warm)touch(k,q,g); if(massWrong){ k.set_mass(mass); mustThrow("setting a momentum after a mass it does not fit",[&]{k.set_momentum(x);},c); mustThrow("update after a mass that does not fit",[&]{k.update();},c); k.set_mass((LD)q.m); } else mustThrow(std::string("setting a momentum with ")+how,[&]{k.set_momentum(y);},c);
    k.set_momentum(x); compareParticle(k,q,g,c,"particle after a rejected momentum");
    // and rounding-size deviations are accepted
    R tiny=g.uniform(-1,1)*1e7L*LIBEPS; LD z[4]={(LD)std::sqrt(p2+tiny),x[1],x[2],x[3]}; if(p2>0.01L){ k.set_momentum(z); k.set_momentum(x); }
  } else if(s=="wrong spinor kind"){
    for(int k=0;k<4;k++){ Kind kd=(Kind)((k+g.below(4))%4); mustThrow(std::string("a massless spinor ")+kindName[kd]+" of a massive particle",[&]{libSpinor(pm,kd);},c); int j=g.flip()?1:-1; for(int f=0;f<3;f++){ mustThrow(std::string("a massive spinor ")+kindName[kd]+" of a massless particle",[&]{libSpinor(p0,kd,j,f);},c); mustThrow(std::string("the massive matrix form of ")+kindName[kd]+" of a massless particle",[&]{libMatrix(p0,kd,f);},c); } }
    compareParticle(p0,q0,g,c,"massless particle after rejected calls"); compareParticle(pm,qm,g,c,"massive particle after rejected calls");
  } else if(s=="spin projections"){
    int b=badSpin(g); c.say("spin ",b); for(int k=0;k<4;k++)for(int f=0;f<3;f++){ mustThrow(std::string("spin ")+std::to_string(b)+" for "+kindName[k],[&]{libSpinor(pm,(Kind)k,b,f);},c); } compareParticle(pm,qm,g,c,"particle after rejected spins");
    std::vector<Q> q={q0,qm,genQ(g,1)}; std::vector<particle> ps={p0,pm,part(q[2])}; int n=(int)g.below(7); bool a=g.flip(); Chain h; h.angle=a; h.ctor=0; h.iL=h.iR=true; for(int i=0;i<n;i++)h.mid.push_back((int)g.below(3)); int ends=(int)g.below(3); h.L=ends==1?0:1; h.Rt=ends==0?0:2; auto sp_=build(h,ps.data()); if(g.flip()) compareChain(*sp_,h,q,g,c,"chain"); int ok=g.flip()?1:-1; if(ends==2){ mustThrow("left spin "+std::to_string(b)+" of "+show(h),[&]{sp_->v(b,ok);},c); mustThrow("right spin "+std::to_string(b)+" of "+show(h),[&]{sp_->v(ok,b);},c); mustThrow("spins "+std::to_string(b)+" of "+show(h),[&]{sp_->v(b,b);},c); } else mustThrow("spin "+std::to_string(b)+" of "+show(h),[&]{sp_->v(b);},c); compareChain(*sp_,h,q,g,c,"chain after rejected spins");
  } else if(s=="number of spins"){
    std::vector<Q> q={q0,qm,genQ(g,1),genQ(g,0)}; std::vector<particle> ps={p0,pm,part(q[2]),part(q[3])}; int n=(int)g.below(7); Chain h; h.angle=g.flip(); h.ctor=0; h.iL=h.iR=true; for(int i=0;i<n;i++)h.mid.push_back((int)g.below(4)); int ends=(int)g.below(4); h.L=ends&1?1:0; h.Rt=ends&2?2:3; auto k=build(h,ps.data()); if(g.flip()) compareChain(*k,h,q,g,c,"chain"); int j=g.flip()?1:-1,j2=g.flip()?1:-1; if(ends!=0) mustThrow("no spin for "+show(h),[&]{k->v();},c); if(ends==0||ends==3) mustThrow("one spin for "+show(h),[&]{k->v(j);},c); if(ends!=3) mustThrow("two spins for "+show(h),[&]{k->v(j,j2);},c); compareChain(*k,h,q,g,c,"chain after rejected calls");
  } else if(s=="spin index position"){
    std::vector<Q> q={q0,qm}; std::vector<particle> ps={p0,pm}; int n=(int)g.below(7); std::vector<int> mid; for(int i=0;i<n;i++)mid.push_back((int)g.below(2)); bool a=g.flip(); 
    { Chain h{a,0,1,false,true,1,mid}; mustThrow("a lower index on a massless left end",[&]{build(h,ps.data());},c); h.ctor=3; h.iR=g.flip(); mustThrow("a lower index on a massless left end",[&]{build(h,ps.data());},c); } { Chain h{a,1,0,true,false,2,mid}; mustThrow("a lower index on a massless right end",[&]{build(h,ps.data());},c); h.ctor=3; h.iL=g.flip(); mustThrow("a lower index on a massless right end",[&]{build(h,ps.data());},c); }
    // an end that becomes massless afterwards
    Chain h{a,1,1,false,true,3,mid}; if(g.flip()){h.iL=true;h.iR=false;} auto k=build(h,ps.data()); compareChain(*k,h,q,g,c,"chain"); LD x[4]; for(int i=0;i<4;i++)x[i]=(LD)q0.p[i]; ps[1].set_mass(0); ps[1].set_momentum(x); mustThrow("updating a chain whose lower-index end became massless",[&]{k->update();},c);
    for(int i=0;i<4;i++)x[i]=(LD)qm.p[i]; ps[1].set_mass((LD)qm.m); ps[1].set_momentum(x); k->update(); compareChain(*k,h,q,g,c,"chain after its end became massive again");
  } else if(s=="indices"){
    cmatrix A; cvector X; auto bad=[&]{ int k; do{ k=g.below(2)?(int)g.pickr({2,-1,3,100}):g.range(-2147483647,2147483646); }while(k==0||k==1); return k; }; int b=bad(),b2=bad(),o=(int)g.below(2); c.say("indices ",b,",",b2); mustThrow("matrix row "+std::to_string(b),[&]{A.get(b,o);},c); mustThrow("matrix column "+std::to_string(b),[&]{A.get(o,b);},c); mustThrow("matrix indices "+std::to_string(b)+","+std::to_string(b2),[&]{A.get(b,b2);},c); mustThrow("vector index "+std::to_string(b),[&]{X.get(b);},c);
  } else { // base process
    spinas::process P; LD x[4]; for(int i=0;i<4;i++)x[i]=(LD)q0.p[i]; mustThrow("setting momenta of a process that has no implementation",[&]{P.set_momenta(x,x,x,x);},c); LD d[20]={0}; if(g.below(16)==0) mustThrow("validating a process that has no implementation",[&]{P.test_2to2_amp2([]{return (LD)0;},0,0,0,0,10,d);},c);
  }
}
static Reg r18(Property{"P18",{"off-shell momenta","wrong spinor kind","spin projections","number of spins","spin index position","indices","unimplemented process"},c_misuse,200000,20000000,"one case = one generated misuse (on fresh or already used objects), which must raise an error and leave the object usable; distinct by the recorded case"});

// ---------------------------------------------------------------- P19 random kinematics
static void c_random(Gen&g,Ctx&c){
  const std::string&s=c.subject; R a=(R)(LD)g.uniform(-100,100),b; switch(g.below(3)){ case 0: a=0; b=(R)(LD)g.logu(1e-3L,1e4L); break; case 1: b=(R)(LD)(std::abs(a)+1); a=-b; break; default: b=(R)(LD)(a+g.logu(1e-2L,200)); } int ia=g.range(-20,20),ib=ia+g.range(0,12); if(g.below(4)==0){ia=0;ib=1;} const int N=400; c.say("range ",a," to ",b,", integers ",ia," to ",ib);
  isolated([&]{ advance(g); 
    auto uniformity=[&](const char*w,const std::vector<R>&x,R lo,R hi){ R n=x.size(),w_=hi-lo,mean=0,mn=hi,mx=lo,sq=0; for(R v:x){ if(!(v>=lo&&v<=hi)) fail(w,": ",v," is outside [",lo,",",hi,"]"); mean+=v/n; mn=std::min(mn,v); mx=std::max(mx,v); } R mid=(lo+hi)/2; for(R v:x) sq+=(v-mean)*(v-mean)/n; if(!(std::abs(mean-mid)<=9*w_/std::sqrt(12*n))) fail(w,": mean ",mean," of ",x.size()," draws from [",lo,",",hi,"]"); if(!(std::abs(sq/(w_*w_)*12-1)<0.6L)) fail(w,": variance ",sq," of draws from [",lo,",",hi,"]"); if(mn>lo+0.1L*w_||mx<hi-0.1L*w_) fail(w,": draws from [",lo,",",hi,"] stay within [",mn,",",mx,"]"); };
    auto indep=[&](const char*w,const std::vector<R>&x,const std::vector<R>&y,R wx,R wy,R mx,R my){ R n=x.size(),k=0; for(size_t i=0;i<x.size();i++)k+=(x[i]-mx)*(y[i]-my)/n; if(!(std::abs(k)/(wx*wy)*12<=9/std::sqrt(n))) fail(w,": two components that should be independent have correlation ",k/(wx*wy)*12); };
    R w=b-a,mid=(a+b)/2;
    if(s=="integers"){ std::map<int,int> h; for(int i=0;i<N*4;i++){ int k=spinas::choose_random_int(ia,ib); if(k<ia||k>ib) fail("integer ",k," is outside [",ia,",",ib,"]"); h[k]++; } R n=ib-ia+1,e=N*4/n; for(int k=ia;k<=ib;k++) if(!(std::abs(h[k]-e)<=9*std::sqrt(e)+1)) fail("integer ",k," drawn ",h[k]," times, expected about ",e); }
    else if(s=="reals"){ std::vector<R> x,y; for(int i=0;i<N;i++){x.push_back(spinas::choose_random_ldouble((LD)a,(LD)b));} uniformity("real numbers",x,a,b); for(int i=0;i<N;i++)y.push_back(x[(i+1)%N]); indep("successive real numbers",x,y,w,w,mid,mid); if(std::set<R>(x.begin(),x.end()).size()<N-2) fail("real numbers repeat"); }
    else if(s=="complex numbers"){ std::vector<R> x,y; for(int i=0;i<N;i++){ CD z=spinas::choose_random_cdouble((LD)a,(LD)b); x.push_back(z.real()); y.push_back(z.imag()); } uniformity("real parts",x,a,b); uniformity("imaginary parts",y,a,b); indep("complex numbers",x,y,w,w,mid,mid); }
    else { bool massive=s=="massive momenta"; if(massive&&b<=0) throw Discard(); std::vector<R> p[3],ms; for(int i=0;i<N;i++){ LD k[4]={(LD)NAN,(LD)NAN,(LD)NAN,(LD)NAN}; R m=0; if(massive) m=spinas::choose_random_momentum(k,(LD)a,(LD)b); else spinas::choose_random_massless_momentum(k,(LD)a,(LD)b); R E=k[0]; P4 q{{(R)k[0],(R)k[1],(R)k[2],(R)k[3]}}; if(!(std::abs(ref::mdot(q,q)-m*m)<=64*T*E*E)) fail("generated momentum (",q[0],",",q[1],",",q[2],",",q[3],") has invariant square ",ref::mdot(q,q),", mass squared is ",m*m); if(!(E>=0)) fail("negative energy ",E); for(int j=0;j<3;j++)p[j].push_back(q[1+j]); ms.push_back(m); if(E<5000){ if(massive&&m>0) particle((const LD*)k,(LD)m); else if(!massive) particle((const LD*)k,0); } }
      for(int j=0;j<3;j++) uniformity("momentum components",p[j],a,b); indep("momentum components",p[0],p[1],w,w,mid,mid); indep("momentum components",p[1],p[2],w,w,mid,mid); indep("momentum components",p[0],p[2],w,w,mid,mid); if(massive){ uniformity("masses",ms,0,b); indep("mass and momentum",ms,p[0],b,w,b/2,mid); } }
  });
}
static Reg r19(Property{"P19",{"integers","reals","complex numbers","massive momenta","massless momenta"},c_random,15000,1500000,"one case = several hundred draws from one generator over a generated range, tested for bounds, mass shell, mean, spread and independence at nine standard deviations; distinct by range and generator position"});

// ---------------------------------------------------------------- P20 text output
static std::vector<R> numbers(std::string t){ // numbers in order; "1.5 10^-3" is one number
  std::vector<R> v; static const std::regex mt("([0-9.]) 10\\^\\+?"); t=std::regex_replace(t,mt,"$1e"); const char*s=t.c_str(); while(*s){ bool start=isdigit((unsigned char)*s)||((*s=='-'||*s=='+')&&isdigit((unsigned char)s[1]))||((*s=='-'||*s=='+'||*s=='.')&&s[1]=='.')||(*s=='.'&&isdigit((unsigned char)s[1])); if(start){ char*e; v.push_back(strtold(s,&e)); s=e; } else s++; } return v; }
static void agree(const std::string&what,const std::string&txt,const std::vector<R>&x,R rel,R abs_,Ctx&c){ c.evals++; auto n=numbers(txt); if(n.size()!=x.size()) fail(what," \"",txt,"\" holds ",n.size()," numbers, expected ",x.size()); for(size_t i=0;i<x.size();i++) if(!(std::abs(n[i]-x[i])<=rel*std::abs(x[i])+abs_)) fail(what," \"",txt,"\": number ",i+1," reads ",n[i],", the value is ",x[i]); }
static R genNum(Gen&g){ switch(g.below(6)){ case 0: return g.pickr({0,1,-1,0.5L,10,-100,1e6L,1e-5L,123456789}); case 1: return (R)(LD)g.uniform(-10,10); case 2: return (R)(LD)((g.flip()?-1:1)*g.logu(1e-300L,1e300L)); case 3: return (R)g.range(-100000,100000); default: return (R)(LD)((g.flip()?-1:1)*g.logu(1e-9L,1e9L)); } }
static void balanced(const std::string&t){ int d=0; for(char ch:t){ if(ch=='{')d++; if(ch=='}'){d--; if(d<0)break;} } if(d!=0) fail("unbalanced braces in \"",t,"\""); }
static void mathSyntax(const std::string&what,const std::string&t){ static const std::regex bad("[0-9.][eE][-+0-9]"); if(std::regex_search(t,bad)) fail(what," \"",t,"\" contains an exponent Mathematica does not read"); }
static void c_text(Gen&g,Ctx&c){
  const std::string&s=c.subject; const int dg=std::numeric_limits<LD>::digits10; R fine=std::pow(R(10),-dg)*2+2*EPS,coarse=6e-6L;
  if(s=="numbers"){ R x=genNum(g); c.say("x=",x); std::string t=spinas::double_to_Mathematica_string((LD)x); agree("Mathematica text",t,{x},fine,0,c); mathSyntax("Mathematica text",t); if(x<0&&t[0]!='-') fail("sign lost in \"",t,"\""); static const std::regex ok("-?[0-9]*\\.?[0-9]*( 10\\^[-+]?[0-9]+)?"); if(!std::regex_match(t,ok)) fail("\"",t,"\" is not a Mathematica number"); return; }
  if(s=="matrices"){ M2 m; std::vector<R> x; for(auto&r:m.a)for(auto&e:r){ R p=genNum(g),q=genNum(g); e=C(p,q); x.push_back(p); x.push_back(q); } c.say("A=",str(m)); cmatrix A=L(m); std::string t=A.to_string(); agree("matrix text",t,x,coarse,0,c); balanced(t); std::ostringstream o; o<<A; if(o.str()!=t) fail("streamed text \"",o.str(),"\" differs from \"",t,"\""); std::string w=A.to_Mathematica_string(); agree("Mathematica text of a matrix",w,x,coarse,0,c); balanced(w); mathSyntax("Mathematica text of a matrix",w); if(std::count(w.begin(),w.end(),'I')!=4) fail("\"",w,"\" does not hold four imaginary parts"); return; }
  V2 v; std::vector<R> x; for(auto&e:v.a){ R p=genNum(g),q=genNum(g); if(std::abs(p)>1e150L)p=1; if(std::abs(q)>1e150L)q=-1; if(p!=0&&std::abs(p)<1e-150L)p=2; if(q!=0&&std::abs(q)<1e-150L)q=3; e=C(p,q); x.push_back(p); x.push_back(q); } c.say("v=",str(v)); cvector X=L(v); std::string t=X.to_string(); agree("vector text",t,x,coarse,0,c); balanced(t); std::ostringstream o; o<<X; if(o.str()!=t) fail("streamed text \"",o.str(),"\" differs from \"",t,"\""); agree("vector text (cartesian)",X.to_string(1),x,coarse,0,c); std::vector<R> pol; for(auto&e:v.a){ pol.push_back(std::abs(e)); pol.push_back(std::arg(e)); } int which=g.flip()?2:0; std::string pt=X.to_string(which); agree("vector text (polar)",pt,pol,coarse,1e-300L,c); balanced(pt); std::string w=X.to_Mathematica_string(); agree("Mathematica text of a vector",w,x,coarse,0,c); balanced(w); mathSyntax("Mathematica text of a vector",w); if(std::count(w.begin(),w.end(),'I')!=2) fail("\"",w,"\" does not hold two imaginary parts");
}
static Reg r20(Property{"P20",{"numbers","matrices","vectors"},c_text,200000,20000000,"one case = one generated number, matrix or vector written as text and read back; distinct by value"});

// ---------------------------------------------------------------- P23 the example program
#include "user-dir/include/eemm.h"
static void c_example(Gen&g,Ctx&c){
  if(c.subject=="self test"){ isolated([&]{ advance(g); int n=test_eemm(); if(n!=0) fail("the example's own comparison reports ",n," mismatches"); }); return; }
  static const ref::Proc P({{"e","E","m","M"}},true); Limits Lm; if(!isLong){Lm.mmin=0.05L;Lm.emax=800;Lm.gmax=4;}
  auto draw=[&](Model&m,Kin&K){ m=genModel(g,Lm,c); m.e=(R)(LD)m.e; m.mf[1]=(R)(LD)m.mf[1]; m.mf[3]=(R)(LD)m.mf[3]; return genKin(g,c,{{m.mf[1],m.mf[1],m.mf[3],m.mf[3]}},Lm,K); };
  Model m; Kin K; if(!draw(m,K)) throw Discard(); eemm*raw=new eemm((LD)m.e,(LD)m.mf[1],(LD)m.mf[3]); std::unique_ptr<eemm> o(raw); R e0=m.e;
  auto set=[&]{ LD p[4][4]; for(int i=0;i<4;i++)for(int j=0;j<4;j++)p[i][j]=(LD)K.k[i][j]; o->set_momenta(p[0],p[1],p[2],p[3]); };
  int n=g.range(0,3); for(int i=0;i<n;i++){ if(g.flip()) set(); if(g.flip()&&i>0) {} Model m2; Kin K2; if(!draw(m2,K2)) throw Discard(); m2.e=e0; o->set_masses((LD)m2.mf[1],(LD)m2.mf[3]); m=m2; K=K2; } c.tag(n?"masses changed":"as constructed");
  set(); describe(c,m); describe(c,K); R e2=0,dm=K.s; for(auto&k:K.k)e2=std::max(e2,k[0]*k[0]); R d=500*EPS*std::max(R(1),e2/dm)+5e-15L; R sc,y=P.amp2(m,K.k,sc); R x=o->amp2(); auto tol=[&](R v,R s){ return (isLong?1e-11L:1e-9L)*v+2*d*std::sqrt(v*s)+d*d*s; }; c.say("amp2 ",x," reference ",y); if(!(std::abs(x-y)<=tol(y,sc))) fail("example: squared amplitude ",x,", the diagram gives ",y);
  R sum=0; for(int h=0;h<16;h++){ std::array<int,4> hel{{h&1?1:-1,h&2?1:-1,h&4?1:-1,h&8?1:-1}}; C a=c_(o->amp(hel[0],hel[1],-hel[2],-hel[3])); auto r=P.amp(m,K.k,hel); R ra=std::abs(r.parts[0]); c.evals++; if(!(std::abs(std::abs(a)-ra)<=1e-9L*ra+d*r.mag)) fail("example: helicity amplitude (",hel[0],",",hel[1],",",hel[2],",",hel[3],") has modulus ",std::abs(a),", the diagram gives ",ra); sum+=std::norm(a); } if(!(std::abs(sum/4-x)<=1e-9L*x)) fail("example: squared amplitude ",x," is not the spin average ",sum/4);
}
static Reg r23(Property{"P23",{"self test","generated points","generated points again","generated histories"},c_example,6000,600000,"one case = the example process at a generated point after generated mass changes, or one run of its own comparison from a generated random state; distinct by the recorded case"});
