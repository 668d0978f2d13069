// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AAee.h"
#include "SM/include/AZee.h"
#include "SM/include/WWWW2.h"
#include "SM/include/ZnWe.h"
#include "SM/include/ddAh.h"
#include "SM/include/ddnn.h"
#include "SM/include/eAAe.h"
#include "SM/include/eeWW.h"
#include "SM/include/eemmQED.h"
#include "SM/include/enenee.h"
#include "SM/include/ggdd.h"
#include "SM/include/hgdd.h"
#include "SM/include/nWWn.h"
#include "SM/include/nnZZ.h"
#include "SM/include/ucuc.h"
#include "SM/include/uguh.h"
#include "SM/include/uuWW.h"
#include "SM/include/uuss.h"
namespace pr {
struct A_AAee : Obj { spinas::AAee t; A_AAee(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus_Aplus();case 2:return t.amp2_Aplus_Aminus();}throw 1;}
};
struct A_AZee : Obj { spinas::AZee t; A_AZee(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_WWWW2 : Obj { spinas::WWWW2 t; A_WWWW2(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ZnWe : Obj { spinas::ZnWe t; A_ZnWe(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddAh : Obj { spinas::ddAh t; A_ddAh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddnn : Obj { spinas::ddnn t; A_ddnn(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eAAe : Obj { spinas::eAAe t; A_eAAe(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_eeWW : Obj { spinas::eeWW t; A_eeWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eemmQED : Obj { spinas::eemmQED t; A_eemmQED(const LD*a):t(a[0],a[1],a[2]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
  bool amp2_of_momenta(const LD*a,const LD*b,const LD*c,const LD*d,LD&r)override{r=t.amp2(a,b,c,d);return true;}
};
struct A_enenee : Obj { spinas::enenee t; A_enenee(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ggdd : Obj { spinas::ggdd t; A_ggdd(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_Num(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Feynman();case 2:return t.amp2_gplus_gplus();case 3:return t.amp2_gplus_gminus();}throw 1;}
};
struct A_hgdd : Obj { spinas::hgdd t; A_hgdd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();}throw 1;}
};
struct A_nWWn : Obj { spinas::nWWn t; A_nWWn(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nnZZ : Obj { spinas::nnZZ t; A_nnZZ(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ucuc : Obj { spinas::ucuc t; A_ucuc(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uguh : Obj { spinas::uguh t; A_uguh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();}throw 1;}
};
struct A_uuWW : Obj { spinas::uuWW t; A_uuWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuss : Obj { spinas::uuss t; A_uuss(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_2(std::vector<Def>&R){
 R.push_back(Def{"AAee",{{"A","A","e","E"}},false,false,{"e","m:e"},{"m:e"},{"amp"},{"amp2","amp2_Aplus_Aplus","amp2_Aplus_Aminus"},[](const LD*a)->Obj*{return new A_AAee(a);}});
 R.push_back(Def{"AZee",{{"A","Z","E","e"}},false,false,{"e","m:e","MW","SW"},{"m:e","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AZee(a);}});
 R.push_back(Def{"WWWW2",{{"W+","W-","W+","W-"}},false,false,{"e","mh","wh","MW","wZ","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_WWWW2(a);}});
 R.push_back(Def{"ZnWe",{{"Z","ne","W+","e"}},false,false,{"e","m:e","MW","SW","wW"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZnWe(a);}});
 R.push_back(Def{"ddAh",{{"d","D","A","h"}},false,false,{"e","m:d","mh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddAh(a);}});
 R.push_back(Def{"ddnn",{{"d","D","ne","Ne"}},false,false,{"e","m:d","MW","SW","wZ"},{"m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddnn(a);}});
 R.push_back(Def{"eAAe",{{"e","A","A","e"}},false,false,{"e","m:e"},{"m:e"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_eAAe(a);}});
 R.push_back(Def{"eeWW",{{"e","E","W+","W-"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeWW(a);}});
 R.push_back(Def{"eemmQED",{{"e","E","m","M"}},true,false,{"e","m:e","m:m"},{"m:e","m:m"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eemmQED(a);}});
 R.push_back(Def{"enenee",{{"e","ne","ne","e"}},false,false,{"e","m:e","MW","wW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_enenee(a);}});
 R.push_back(Def{"ggdd",{{"g","g","d","D"}},false,false,{"gs","m:d"},{"m:d"},{"amp_Num"},{"amp2","amp2_Feynman","amp2_gplus_gplus","amp2_gplus_gminus"},[](const LD*a)->Obj*{return new A_ggdd(a);}});
 R.push_back(Def{"hgdd",{{"h","g","d","D"}},false,false,{"e","gs","m:d","mh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2","amp2_gplus"},[](const LD*a)->Obj*{return new A_hgdd(a);}});
 R.push_back(Def{"nWWn",{{"ne","W+","W+","ne"}},false,false,{"e","m:e","MW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nWWn(a);}});
 R.push_back(Def{"nnZZ",{{"ne","Ne","Z","Z"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nnZZ(a);}});
 R.push_back(Def{"ucuc",{{"u","c","u","c"}},false,false,{"e","gs","m:u","m:c","mh","wh","MW","SW","wZ"},{"m:u","m:c","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_ucuc(a);}});
 R.push_back(Def{"uguh",{{"u","g","u","h"}},false,false,{"e","gs","m:u","mh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2","amp2_gplus"},[](const LD*a)->Obj*{return new A_uguh(a);}});
 R.push_back(Def{"uuWW",{{"u","U","W+","W-"}},false,false,{"e","m:u","m:d","mh","wh","MW","SW","wZ"},{"m:u","m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuWW(a);}});
 R.push_back(Def{"uuss",{{"u","U","s","S"}},false,false,{"e","gs","m:u","m:s","mh","wh","MW","SW","wZ"},{"m:u","m:s","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_uuss(a);}});
}
}
