// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AAuu.h"
#include "SM/include/AZuu.h"
#include "SM/include/WdWd.h"
#include "SM/include/dAAd.h"
#include "SM/include/ddWW.h"
#include "SM/include/ddss.h"
#include "SM/include/eAeh.h"
#include "SM/include/eeZZ.h"
#include "SM/include/eenene.h"
#include "SM/include/enmenm.h"
#include "SM/include/gggg.h"
#include "SM/include/hguu.h"
#include "SM/include/nZZn.h"
#include "SM/include/nnZh.h"
#include "SM/include/udAW.h"
#include "SM/include/uhWd.h"
#include "SM/include/uuZZ.h"
#include "SM/include/uuuu.h"
namespace pr {
struct A_AAuu : Obj { spinas::AAuu t; A_AAuu(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus_Aplus();case 2:return t.amp2_Aplus_Aminus();}throw 1;}
};
struct A_AZuu : Obj { spinas::AZuu t; A_AZuu(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_WdWd : Obj { spinas::WdWd t; A_WdWd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dAAd : Obj { spinas::dAAd t; A_dAAd(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_ddWW : Obj { spinas::ddWW t; A_ddWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddss : Obj { spinas::ddss t; A_ddss(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eAeh : Obj { spinas::eAeh t; A_eAeh(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
  void set_v(LD v)override{t.set_v(v);}
  bool amp2_of_momenta(const LD*a,const LD*b,const LD*c,const LD*d,LD&r)override{r=t.amp2(a,b,c,d);return true;}
};
struct A_eeZZ : Obj { spinas::eeZZ t; A_eeZZ(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eenene : Obj { spinas::eenene t; A_eenene(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_enmenm : Obj { spinas::enmenm t; A_enmenm(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gggg : Obj { spinas::gggg t; A_gggg(const LD*a):t(a[0]){(void)a;}
  void set_masses(const LD*a)override{(void)a;}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Feynman();case 2:return t.amp2_gplus_gplus();case 3:return t.amp2_gplus_gminus();case 4:return t.amp2_gminus_gplus();case 5:return t.amp2_gminus_gminus();}throw 1;}
};
struct A_hguu : Obj { spinas::hguu t; A_hguu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();}throw 1;}
};
struct A_nZZn : Obj { spinas::nZZn t; A_nZZn(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nnZh : Obj { spinas::nnZh t; A_nnZh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_udAW : Obj { spinas::udAW t; A_udAW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uhWd : Obj { spinas::uhWd t; A_uhWd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuZZ : Obj { spinas::uuZZ t; A_uuZZ(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuuu : Obj { spinas::uuuu t; A_uuuu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon_S(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest_S(d[0],d[1],d[2],d[3]);case 2:return t.amp_gluon_T(d[0],d[1],d[2],d[3]);case 3:return t.amp_rest_T(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_3(std::vector<Def>&R){
 R.push_back(Def{"AAuu",{{"A","A","u","U"}},false,false,{"e","m:u"},{"m:u"},{"amp"},{"amp2","amp2_Aplus_Aplus","amp2_Aplus_Aminus"},[](const LD*a)->Obj*{return new A_AAuu(a);}});
 R.push_back(Def{"AZuu",{{"A","Z","u","U"}},false,false,{"e","m:u","MW","SW"},{"m:u","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AZuu(a);}});
 R.push_back(Def{"WdWd",{{"W+","d","W+","d"}},false,false,{"e","m:d","m:u","mh","wh","MW","SW","wZ"},{"m:d","m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_WdWd(a);}});
 R.push_back(Def{"dAAd",{{"d","A","A","d"}},false,false,{"e","m:d"},{"m:d"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_dAAd(a);}});
 R.push_back(Def{"ddWW",{{"D","d","W+","W-"}},false,false,{"e","m:d","m:u","mh","wh","MW","SW","wZ"},{"m:d","m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddWW(a);}});
 R.push_back(Def{"ddss",{{"d","D","s","S"}},false,false,{"e","gs","m:d","m:s","mh","wh","MW","SW","wZ"},{"m:d","m:s","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_ddss(a);}});
 R.push_back(Def{"eAeh",{{"e","A","e","h"}},false,true,{"e","m:e","mh","vev"},{"m:e","mh"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_eAeh(a);}});
 R.push_back(Def{"eeZZ",{{"e","E","Z","Z"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeZZ(a);}});
 R.push_back(Def{"eenene",{{"e","E","ne","Ne"}},false,false,{"e","m:e","MW","wW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eenene(a);}});
 R.push_back(Def{"enmenm",{{"e","nm","e","nm"}},false,false,{"e","m:e","MW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_enmenm(a);}});
 R.push_back(Def{"gggg",{{"g","g","g","g"}},false,false,{"gs"},{},{"amp"},{"amp2","amp2_Feynman","amp2_gplus_gplus","amp2_gplus_gminus","amp2_gminus_gplus","amp2_gminus_gminus"},[](const LD*a)->Obj*{return new A_gggg(a);}});
 R.push_back(Def{"hguu",{{"h","g","u","U"}},false,false,{"e","gs","m:u","mh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2","amp2_gplus"},[](const LD*a)->Obj*{return new A_hguu(a);}});
 R.push_back(Def{"nZZn",{{"ne","Z","Z","ne"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nZZn(a);}});
 R.push_back(Def{"nnZh",{{"ne","Ne","Z","h"}},false,false,{"e","mh","MW","SW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nnZh(a);}});
 R.push_back(Def{"udAW",{{"U","d","A","W-"}},false,false,{"e","m:u","m:d","MW","SW","wW"},{"m:u","m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_udAW(a);}});
 R.push_back(Def{"uhWd",{{"u","h","W+","d"}},false,false,{"e","m:u","m:d","mh","MW","wW","SW"},{"m:u","m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uhWd(a);}});
 R.push_back(Def{"uuZZ",{{"u","U","Z","Z"}},false,false,{"e","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuZZ(a);}});
 R.push_back(Def{"uuuu",{{"u","U","u","U"}},false,false,{"e","gs","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp_gluon_S","amp_rest_S","amp_gluon_T","amp_rest_T"},{"amp2"},[](const LD*a)->Obj*{return new A_uuuu(a);}});
}
}
