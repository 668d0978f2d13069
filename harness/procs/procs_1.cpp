// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AAdd.h"
#include "SM/include/AZdd.h"
#include "SM/include/WWWW.h"
#include "SM/include/ZhWW.h"
#include "SM/include/ddAA.h"
#include "SM/include/ddhh.h"
#include "SM/include/dsds.h"
#include "SM/include/eeAh.h"
#include "SM/include/eemm.h"
#include "SM/include/enZW.h"
#include "SM/include/gdZd.h"
#include "SM/include/hZZh.h"
#include "SM/include/mnen.h"
#include "SM/include/nnWW.h"
#include "SM/include/ubdt.h"
#include "SM/include/ueeu.h"
#include "SM/include/uuAh.h"
#include "SM/include/uunn.h"
namespace pr {
struct A_AAdd : Obj { spinas::AAdd t; A_AAdd(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus_Aplus();case 2:return t.amp2_Aplus_Aminus();}throw 1;}
};
struct A_AZdd : Obj { spinas::AZdd t; A_AZdd(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_WWWW : Obj { spinas::WWWW t; A_WWWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ZhWW : Obj { spinas::ZhWW t; A_ZhWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddAA : Obj { spinas::ddAA t; A_ddAA(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddhh : Obj { spinas::ddhh t; A_ddhh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dsds : Obj { spinas::dsds t; A_dsds(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeAh : Obj { spinas::eeAh t; A_eeAh(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
  void set_v(LD v)override{t.set_v(v);}
};
struct A_eemm : Obj { spinas::eemm t; A_eemm(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_enZW : Obj { spinas::enZW t; A_enZW(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gdZd : Obj { spinas::gdZd t; A_gdZd(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_hZZh : Obj { spinas::hZZh t; A_hZZh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_mnen : Obj { spinas::mnen t; A_mnen(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nnWW : Obj { spinas::nnWW t; A_nnWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ubdt : Obj { spinas::ubdt t; A_ubdt(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3],a[4]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ueeu : Obj { spinas::ueeu t; A_ueeu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuAh : Obj { spinas::uuAh t; A_uuAh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uunn : Obj { spinas::uunn t; A_uunn(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_1(std::vector<Def>&R){
 R.push_back(Def{"AAdd",{{"A","A","d","D"}},false,false,{"e","m:d"},{"m:d"},{"amp"},{"amp2","amp2_Aplus_Aplus","amp2_Aplus_Aminus"},[](const LD*a)->Obj*{return new A_AAdd(a);}});
 R.push_back(Def{"AZdd",{{"A","Z","d","D"}},false,false,{"e","m:d","MW","SW"},{"m:d","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AZdd(a);}});
 R.push_back(Def{"WWWW",{{"W+","W+","W+","W+"}},false,false,{"e","mh","wh","MW","wZ","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_WWWW(a);}});
 R.push_back(Def{"ZhWW",{{"Z","h","W+","W-"}},false,false,{"e","mh","MW","SW","wW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZhWW(a);}});
 R.push_back(Def{"ddAA",{{"d","D","A","A"}},false,false,{"e","m:d"},{"m:d"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddAA(a);}});
 R.push_back(Def{"ddhh",{{"d","D","h","h"}},false,false,{"e","m:d","mh","wh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddhh(a);}});
 R.push_back(Def{"dsds",{{"d","s","d","s"}},false,false,{"e","gs","m:d","m:s","mh","wh","MW","SW","wZ"},{"m:d","m:s","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_dsds(a);}});
 R.push_back(Def{"eeAh",{{"e","E","A","h"}},false,true,{"e","m:e","mh","vev"},{"m:e","mh"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeAh(a);}});
 R.push_back(Def{"eemm",{{"e","E","m","M"}},false,false,{"e","m:e","m:m","mh","wh","MW","SW","wZ"},{"m:e","m:m","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eemm(a);}});
 R.push_back(Def{"enZW",{{"E","ne","Z","W+"}},false,false,{"e","m:e","MW","SW","wW"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_enZW(a);}});
 R.push_back(Def{"gdZd",{{"g","d","Z","d"}},false,false,{"e","gs","m:d","MW","SW"},{"m:d","MW"},{"amp"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_gdZd(a);}});
 R.push_back(Def{"hZZh",{{"h","Z","Z","h"}},false,false,{"e","mh","wh","MW","SW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hZZh(a);}});
 R.push_back(Def{"mnen",{{"m","ne","e","nm"}},false,false,{"e","m:e","m:m","MW","wW","SW"},{"m:e","m:m","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_mnen(a);}});
 R.push_back(Def{"nnWW",{{"ne","Ne","W+","W-"}},false,false,{"e","m:e","MW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nnWW(a);}});
 R.push_back(Def{"ubdt",{{"u","b","d","t"}},false,false,{"e","m:u","m:d","m:t","m:b","MW","wW","SW"},{"m:u","m:d","m:t","m:b","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ubdt(a);}});
 R.push_back(Def{"ueeu",{{"u","e","e","u"}},false,false,{"e","m:u","m:e","mh","wh","MW","SW","wZ"},{"m:u","m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ueeu(a);}});
 R.push_back(Def{"uuAh",{{"u","U","A","h"}},false,false,{"e","m:u","mh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuAh(a);}});
 R.push_back(Def{"uunn",{{"u","U","ne","Ne"}},false,false,{"e","m:u","MW","SW","wZ"},{"m:u","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uunn(a);}});
}
}
