// Small property-based-testing engine: cases are drawn from a recorded stream of
// choices, so a failing case can be shrunk and replayed without any knowledge of
// what it means.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <time.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#define PBT_LEAKS 1
#endif
#endif

namespace pbt {
#ifdef PBT_LEAKS
inline bool leaked(){ return __lsan_do_recoverable_leak_check()!=0; }
static const bool leakBuild=true;
#else
inline bool leaked(){ return false; }
static const bool leakBuild=false;
#endif
typedef long double R;
typedef uint64_t u64;

inline u64 mix(u64 x){ x+=0x9e3779b97f4a7c15ull; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
inline u64 hashs(const std::string&s,u64 h=1469598103934665603ull){ for(unsigned char c:s){h^=c;h*=1099511628211ull;} return mix(h); }

struct Fail : std::exception { std::string m; Fail(const std::string&s):m(s){} const char*what()const noexcept override{return m.c_str();} };
struct Discard {};

// Source of choices.
struct Gen {
  std::vector<u64> ch; size_t pos=0; bool replay=false; u64 st=0;
  static Gen random(u64 seed){Gen g;g.st=mix(seed);return g;}
  static Gen from(const std::vector<u64>&c){Gen g;g.ch=c;g.replay=true;return g;}
  u64 next(){ st+=0x9e3779b97f4a7c15ull; u64 x=st; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
  u64 below(u64 n){ // uniform in [0,n)
    if(n<=1){return 0;}
    u64 v;
    if(replay){ v=pos<ch.size()?ch[pos]%n:0; if(pos>=ch.size()&&ch.size()<100000) ch.push_back(0); pos++; return v; }
    v=(u64)(((unsigned __int128)next()*n)>>64); ch.push_back(v); pos++; return v;
  }
  bool flip(){return below(2)!=0;}
  bool chance(u64 num,u64 den){return below(den)>=den-num;}     // false is the simple outcome
  int range(int lo,int hi){return (int)((long long)lo+(long long)below((u64)((long long)hi-lo+1)));}
  R unit(){ // [0,1]; a quarter of the draws fall on a coarse grid
    if(below(4)==0) return R(below(9))/8;
    return R(below(1ull<<53))/R(1ull<<53);
  }
  R uniform(R lo,R hi){return lo+(hi-lo)*unit();}
  R logu(R lo,R hi){return lo*std::pow(hi/lo,unit());}
  template<class T> const T& pick(const std::vector<T>&v){return v[below(v.size())];}
  R pickr(std::initializer_list<R> l){ auto i=below(l.size()); return *(l.begin()+i); }
};

struct Ctx {
  std::string subject; bool verbose=false; std::vector<std::string> log;
  std::map<std::string,long>*tags=nullptr; bool trivial=false; long evals=0;
  std::map<std::string,double>*maxima=nullptr;
  double intensity=1;   // 1 for quick, larger for thorough: lets a property do more work per case
  template<class...A> void say(const A&...a){ if(!verbose)return; std::ostringstream o; o<<std::setprecision(21); (void)std::initializer_list<int>{(o<<a,0)...}; log.push_back(o.str()); }
  void tag(const std::string&t){ if(tags)(*tags)[t]++; }
  void maximum(const std::string&t,double v){ if(maxima){auto it=maxima->find(t); if(it==maxima->end()||v>it->second)(*maxima)[t]=v;} }
};
template<class...A> [[noreturn]] inline void fail(const A&...a){ std::ostringstream o; o<<std::setprecision(19); (void)std::initializer_list<int>{(o<<a,0)...}; throw Fail(o.str()); }

typedef std::function<void(Gen&,Ctx&)> PropFn;
struct Property {
  std::string id; std::vector<std::string> subjects; PropFn fn;
  long quick, thorough;   // cases per subject
  std::string rule;       // what counts as one distinct non-trivial case
};
std::vector<Property>& properties();
struct Reg { Reg(const Property&p){properties().push_back(p);} };

// ---- running one case; unexpected exceptions from the library are failures
inline bool run_case(const Property&p,Gen&g,Ctx&c,std::string&msg,bool&discard){
  discard=false;
  try{ p.fn(g,c); return true; }
  catch(const Fail&f){ msg=f.m; return false; }
  catch(const Discard&){ discard=true; return true; }
  catch(const std::exception&e){ msg=std::string("unexpected exception: ")+e.what(); return false; }
  catch(...){ msg="unexpected exception of unknown type"; return false; }
}
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

struct Silence { // the library prints usage text on misuse; keep it off the report
  int save; Silence(){ fflush(stdout); save=dup(1); int n=open("/dev/null",O_WRONLY); dup2(n,1); close(n);} ~Silence(){ fflush(stdout); dup2(save,1); close(save);} };

inline std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;} else o+=c; } return o; }

inline void write_replay(const std::string&path,const Property&p,const std::string&subject,const std::vector<u64>&ch,u64 seed,const std::string&msg,const std::vector<std::string>&log){
  std::ofstream f(path); f<<"property "<<p.id<<"\nsubject "<<subject<<"\nseed "<<seed<<"\nchoices "<<ch.size(); for(u64 c:ch)f<<" "<<c; f<<"\n";
  std::istringstream ms(msg); std::string l; while(std::getline(ms,l)) f<<"# "<<l<<"\n";
  for(auto&x:log){ std::istringstream xs(x); while(std::getline(xs,l)) f<<"#   "<<l<<"\n"; }
}
inline void shrink(const Property&p,const std::string&subject,std::vector<u64>&best,double intensity,double limit){
  double t0=now(); long n=0;
  auto fails=[&](const std::vector<u64>&c,std::vector<u64>&used){ n++; Gen g=Gen::from(c); Ctx x; x.subject=subject; x.intensity=intensity; std::string m; bool d; bool ok=run_case(p,g,x,m,d); used=g.ch; if(g.pos<used.size())used.resize(g.pos); return !ok; };
  auto stop=[&]{return n>20000||now()-t0>limit;};
  bool again=true; std::vector<u64> used;
  if(fails(best,used)) best=used; else return;
  while(again&&!stop()){
    again=false;
    for(size_t len=8;len>=1&&!stop();len/=2) for(size_t i=0;i+len<=best.size()&&!stop();){ auto c=best; c.erase(c.begin()+i,c.begin()+i+len); if(fails(c,used)&&(used.size()<best.size()||(used.size()==best.size()&&used<best))){best=used;again=true;} else i++; }
    for(size_t i=0;i<best.size()&&!stop();i++){ if(!best[i])continue; auto c=best; c[i]=0; if(fails(c,used)&&used.size()<=best.size()){best=used;again=true;continue;}
      u64 lo=0,hi=best[i]; while(lo+1<hi&&!stop()){ u64 mid=lo+(hi-lo)/2; c=best; if(i>=c.size())break; c[i]=mid; if(fails(c,used)&&used.size()<=best.size()){best=used;hi=mid;again=true;} else lo=mid; } }
  }
}

struct CurInfo { u64 caseseed; char subject[64]; int active; int pad; int64_t index; };
static CurInfo* g_cur=nullptr;
inline void on_timer(int){ const char m[]="case exceeded its CPU limit\n"; if(write(2,m,sizeof m-1)){} _exit(77); }
inline void arm(double sec){ itimerval t{}; t.it_value.tv_sec=(long)sec; t.it_value.tv_usec=(long)((sec-(long)sec)*1e6); setitimer(ITIMER_PROF,&t,nullptr); }

inline u64 case_seed(u64 seed,const std::string&id,const std::string&sub,long it){ return mix(mix(seed)^hashs(id+"|"+sub)^mix((u64)it*2654435761u+17)); }

inline int main_(int argc,char**argv){
  std::map<std::string,std::string> o; for(int i=1;i+1<argc;i+=2) o[argv[i]]=argv[i+1];
  std::string id=o["--prop"]; bool thorough=o["--tier"]=="thorough"; u64 seed=strtoull(o["--seed"].c_str(),0,10);
  const Property*P=nullptr; for(auto&p:properties()) if(p.id==id)P=&p;
  if(o.count("--replay")){
    std::ifstream f(o["--replay"]); std::string k,sub,pid; std::vector<u64> ch; u64 cs=0; bool have=false; u64 rs=0; long lo=0,hi=-1; int nsh=1;
    while(f>>k){ if(k=="property")f>>pid; else if(k=="subject"){f>>std::ws;std::getline(f,sub);} else if(k=="seed")f>>cs; else if(k=="choices"){size_t n;f>>n;ch.resize(n);for(auto&x:ch)f>>x;have=true;} else if(k=="bycase"){have=false;} else if(k=="sequence"){f>>rs>>nsh>>lo>>hi;} else {std::string r;std::getline(f,r);} }
    for(auto&p:properties()) if(p.id==pid)P=&p; if(!P){fprintf(stderr,"no such property\n");return 2;}
    signal(SIGPROF,on_timer);
    if(hi>=0){ // the cases of one worker up to the failing one: state survives from case to case
      bool ok=true; std::string m,l; long at=-1; { Silence s; for(long i=hi-(hi-lo)/nsh*nsh;i<=hi&&ok;i+=nsh){ arm(60); const std::string&u=P->subjects[i%P->subjects.size()]; Gen g=Gen::random(case_seed(rs,pid,u,i/(long)P->subjects.size())); Ctx x; x.subject=u; x.intensity=thorough?4:1; bool d; ok=run_case(*P,g,x,m,d); at=i; l=u; if(ok&&leakBuild&&leaked()){ ok=false; m="memory leak"; } } }
      printf(ok?"HOLDS\n":"FAILS at case %ld (%s): %s\n",at,l.c_str(),m.c_str()); return ok?0:10; }
    arm(60);
    Gen g=have?Gen::from(ch):Gen::random(cs); Ctx x; x.subject=sub; x.verbose=true; x.intensity=thorough?4:1; std::string m; bool d; bool ok;
    { Silence s; ok=run_case(*P,g,x,m,d); if(ok&&leakBuild&&leaked()){ ok=false; m="memory leak"; } }
    for(auto&l:x.log) printf("  %s\n",l.c_str());
    printf(ok?(d?"DISCARDED\n":"HOLDS\n"):"FAILS %s\n",m.c_str()); return ok?0:10;
  }
  if(!P){fprintf(stderr,"unknown property %s\n",id.c_str());return 2;}
  int shard=0,nsh=1; if(o.count("--shard")) sscanf(o["--shard"].c_str(),"%d/%d",&shard,&nsh);
  double budget=o.count("--budget")?atof(o["--budget"].c_str()):1e9; std::string out=o["--out"];
  { int fd=open((out+".cur").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); if(ftruncate(fd,sizeof(CurInfo))){} g_cur=(CurInfo*)mmap(0,sizeof(CurInfo),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); }
  signal(SIGPROF,on_timer);
  std::map<std::string,long> tags; std::map<std::string,double> maxima; std::unordered_set<u64> distinct; long evals=0,disc=0,triv=0; std::vector<std::string> samples;
  std::map<std::string,long> per;
  long cases=thorough?P->thorough:P->quick; double scale=o.count("--scale")?atof(o["--scale"].c_str()):1; cases=std::max(1L,(long)(cases*scale));
  double t0=now(); bool failed=false; std::string fmsg; std::vector<u64> fch; std::string fsub; bool early=false;
  std::vector<std::string> subjects=P->subjects; if(o.count("--only")) subjects={o["--only"]}; bool keep=o.count("--keep"); std::set<std::string> dead;
  size_t ns=subjects.size(); long since=0,window=-1,leakLo=-1,leakHi=-1;
  { Silence sil;
  for(long it=0;it<cases&&!failed&&!early;it++) for(size_t s=0;s<ns&&!failed;s++){
    if((long)((it*(long)ns+(long)s)%nsh)!=shard) continue;
    if(now()-t0>budget){early=true;break;}
    const std::string&sub=subjects[s]; if(dead.count(sub))continue; u64 cs=case_seed(seed,id,sub,it);
    g_cur->caseseed=cs; g_cur->index=it*(long)ns+(long)s; strncpy(g_cur->subject,sub.c_str(),63); g_cur->active=1;
    arm(60); long here=it*(long)ns+(long)s; if(window<0)window=here;
    Gen g=Gen::random(cs); Ctx x; x.subject=sub; x.tags=&tags; x.maxima=&maxima; x.intensity=thorough?4:1; bool d; std::string m;
    if(samples.size()<6&&(it<2)) x.verbose=true;
    bool ok=run_case(*P,g,x,m,d); evals+=x.evals?x.evals:1;
    g_cur->active=0;
    if(leakBuild&&ok&&++since>=500){ since=0; if(leaked()){ failed=true; fmsg="memory leak"; leakLo=window; leakHi=here; break; } window=-1; }
    if(d){disc++;continue;}
    per[sub]++;
    u64 h=hashs(sub); for(u64 c:g.ch)h=mix(h^c); if(x.trivial)triv++; else if(distinct.size()<1500000) distinct.insert(h);   // a lower bound beyond that
    if(x.verbose&&samples.size()<6){ std::string j=sub+":"; for(auto&l:x.log){j+=" "+l+";"; if(j.size()>700)break;} samples.push_back(j); }
    if(!ok&&keep){ dead.insert(sub); fprintf(stderr,"%s\n",m.c_str()); continue; }
    if(!ok){ failed=true; fmsg=m; fch=g.ch; fsub=sub; }
  }
  arm(0);
  if(leakBuild&&!failed&&window>=0&&leaked()){ failed=true; fmsg="memory leak"; leakLo=window; leakHi=(long)g_cur->index; }
  if(failed&&leakHi>=0){ std::ofstream f(out+".replay"); f<<"property "<<id<<"\nsubject -\nsequence "<<seed<<" "<<nsh<<" "<<leakLo<<" "<<leakHi<<"\n# memory leak in one of these cases\n"; }
  else if(failed){
    signal(SIGPROF,SIG_IGN);
    shrink(*P,fsub,fch,thorough?4:1,15); Gen g=Gen::from(fch); Ctx x; x.subject=fsub; x.verbose=true; x.intensity=thorough?4:1; bool d; std::string m; run_case(*P,g,x,m,d); if(!m.empty())fmsg=m; write_replay(out+".replay",*P,fsub,fch,seed,fmsg,x.log); }
  }
  { std::ofstream hf(out+".hashes",std::ios::binary); for(u64 h:distinct) hf.write((char*)&h,8); }
  std::ofstream f(out); f<<"{\"evaluations\":"<<evals<<",\"discarded\":"<<disc<<",\"trivial\":"<<triv<<",\"early\":"<<(early?"true":"false")<<",\"failed\":"<<(failed?"true":"false")<<",\"message\":\""<<jesc(fmsg)<<"\",\"subject\":\""<<jesc(fsub)<<"\",\"rule\":\""<<jesc(P->rule)<<"\",\"tags\":{";
  bool first=true; for(auto&t:tags){f<<(first?"":",")<<"\""<<jesc(t.first)<<"\":"<<t.second;first=false;} f<<"},\"maxima\":{"; first=true; for(auto&t:maxima){ if(!std::isfinite(t.second))continue; f<<(first?"":",")<<"\""<<jesc(t.first)<<"\":"<<t.second;first=false;}
  f<<"},\"subjects\":{"; first=true; for(auto&t:per){f<<(first?"":",")<<"\""<<jesc(t.first)<<"\":"<<t.second;first=false;}
  f<<"},\"samples\":["; first=true; for(auto&s:samples){f<<(first?"":",")<<"\""<<jesc(s)<<"\"";first=false;} f<<"]}\n";
  return failed?10:0;
}
} // namespace pbt
