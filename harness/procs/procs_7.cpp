// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AWud.h"
#include "SM/include/AnWe.h"
#include "SM/include/ZZWW.h"
#include "SM/include/dZZd.h"
#include "SM/include/dddd2.h"
#include "SM/include/dhdh.h"
#include "SM/include/eeAA.h"
#include "SM/include/eeeeQED.h"
#include "SM/include/enAW.h"
#include "SM/include/gZdd.h"
#include "SM/include/gugu.h"
#include "SM/include/hnWe.h"
#include "SM/include/nenenmnm.h"
#include "SM/include/uZZu.h"
#include "SM/include/udtb.h"
#include "SM/include/usus.h"
#include "SM/include/uuee.h"
namespace pr {
struct A_AWud : Obj { spinas::AWud t; A_AWud(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_AnWe : Obj { spinas::AnWe t; A_AnWe(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_ZZWW : Obj { spinas::ZZWW t; A_ZZWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dZZd : Obj { spinas::dZZd t; A_dZZd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dddd2 : Obj { spinas::dddd2 t; A_dddd2(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon_T(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest_T(d[0],d[1],d[2],d[3]);case 2:return t.amp_gluon_U(d[0],d[1],d[2],d[3]);case 3:return t.amp_rest_U(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dhdh : Obj { spinas::dhdh t; A_dhdh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeAA : Obj { spinas::eeAA t; A_eeAA(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
  bool amp2_of_momenta(const LD*a,const LD*b,const LD*c,const LD*d,LD&r)override{r=t.amp2(a,b,c,d);return true;}
};
struct A_eeeeQED : Obj { spinas::eeeeQED t; A_eeeeQED(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
  bool amp2_of_momenta(const LD*a,const LD*b,const LD*c,const LD*d,LD&r)override{r=t.amp2(a,b,c,d);return true;}
};
struct A_enAW : Obj { spinas::enAW t; A_enAW(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gZdd : Obj { spinas::gZdd t; A_gZdd(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_gugu : Obj { spinas::gugu t; A_gugu(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_Num(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_hnWe : Obj { spinas::hnWe t; A_hnWe(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nenenmnm : Obj { spinas::nenenmnm t; A_nenenmnm(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp();}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uZZu : Obj { spinas::uZZu t; A_uZZu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_udtb : Obj { spinas::udtb t; A_udtb(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3],a[4]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_usus : Obj { spinas::usus t; A_usus(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuee : Obj { spinas::uuee t; A_uuee(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_7(std::vector<Def>&R){
 R.push_back(Def{"AWud",{{"A","W+","u","D"}},false,false,{"e","m:u","m:d","MW","SW","wW"},{"m:u","m:d","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AWud(a);}});
 R.push_back(Def{"AnWe",{{"A","ne","W+","e"}},false,false,{"e","m:e","MW","SW","wW"},{"m:e","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AnWe(a);}});
 R.push_back(Def{"ZZWW",{{"Z","Z","W+","W-"}},false,false,{"e","mh","wh","MW","wW","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZZWW(a);}});
 R.push_back(Def{"dZZd",{{"d","Z","Z","d"}},false,false,{"e","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_dZZd(a);}});
 R.push_back(Def{"dddd2",{{"d","d","d","d"}},false,false,{"e","gs","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp_gluon_T","amp_rest_T","amp_gluon_U","amp_rest_U"},{"amp2"},[](const LD*a)->Obj*{return new A_dddd2(a);}});
 R.push_back(Def{"dhdh",{{"d","h","d","h"}},false,false,{"e","m:d","mh","wh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_dhdh(a);}});
 R.push_back(Def{"eeAA",{{"e","E","A","A"}},false,false,{"e","m:e"},{"m:e"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeAA(a);}});
 R.push_back(Def{"eeeeQED",{{"e","E","e","E"}},true,false,{"e","m:e"},{"m:e"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeeeQED(a);}});
 R.push_back(Def{"enAW",{{"E","ne","A","W+"}},false,false,{"e","m:e","MW","SW","wW"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_enAW(a);}});
 R.push_back(Def{"gZdd",{{"g","Z","d","D"}},false,false,{"e","gs","m:d","MW","SW"},{"m:d","MW"},{"amp"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_gZdd(a);}});
 R.push_back(Def{"gugu",{{"g","u","g","u"}},false,false,{"gs","m:u"},{"m:u"},{"amp_Num"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_gugu(a);}});
 R.push_back(Def{"hnWe",{{"h","ne","W+","e"}},false,false,{"e","m:e","mh","MW","wW","SW"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hnWe(a);}});
 R.push_back(Def{"nenenmnm",{{"ne","Ne","nm","Nm"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nenenmnm(a);}});
 R.push_back(Def{"uZZu",{{"u","Z","Z","u"}},false,false,{"e","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uZZu(a);}});
 R.push_back(Def{"udtb",{{"u","D","t","B"}},false,false,{"e","m:u","m:d","m:t","m:b","MW","wW","SW"},{"m:u","m:d","m:t","m:b","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_udtb(a);}});
 R.push_back(Def{"usus",{{"u","s","u","s"}},false,false,{"e","gs","m:u","m:s","mh","wh","MW","SW","wZ"},{"m:u","m:s","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_usus(a);}});
 R.push_back(Def{"uuee",{{"u","U","e","E"}},false,false,{"e","m:u","m:e","mh","wh","MW","SW","wZ"},{"m:u","m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuee(a);}});
}
}
