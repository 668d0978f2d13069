// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AWZW.h"
#include "SM/include/AhWW.h"
#include "SM/include/ZWZW.h"
#include "SM/include/dWgu.h"
#include "SM/include/dddd.h"
#include "SM/include/dggd.h"
#include "SM/include/eZeh.h"
#include "SM/include/eeee2.h"
#include "SM/include/emem.h"
#include "SM/include/gWud.h"
#include "SM/include/guZu.h"
#include "SM/include/hhhh.h"
#include "SM/include/nenenene2.h"
#include "SM/include/uWWu.h"
#include "SM/include/udnl.h"
#include "SM/include/unnu.h"
#include "SM/include/uudd.h"
namespace pr {
struct A_AWZW : Obj { spinas::AWZW t; A_AWZW(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_AhWW : Obj { spinas::AhWW t; A_AhWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_ZWZW : Obj { spinas::ZWZW t; A_ZWZW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dWgu : Obj { spinas::dWgu t; A_dWgu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dddd : Obj { spinas::dddd t; A_dddd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon_S(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest_S(d[0],d[1],d[2],d[3]);case 2:return t.amp_gluon_T(d[0],d[1],d[2],d[3]);case 3:return t.amp_rest_T(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dggd : Obj { spinas::dggd t; A_dggd(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_Num(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_eZeh : Obj { spinas::eZeh t; A_eZeh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeee2 : Obj { spinas::eeee2 t; A_eeee2(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_emem : Obj { spinas::emem t; A_emem(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gWud : Obj { spinas::gWud t; A_gWud(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();}throw 1;}
};
struct A_guZu : Obj { spinas::guZu t; A_guZu(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_hhhh : Obj { spinas::hhhh t; A_hhhh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp();}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nenenene2 : Obj { spinas::nenenene2 t; A_nenenene2(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp();}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uWWu : Obj { spinas::uWWu t; A_uWWu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_udnl : Obj { spinas::udnl t; A_udnl(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_unnu : Obj { spinas::unnu t; A_unnu(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uudd : Obj { spinas::uudd t; A_uudd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);case 2:return t.amp_W(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_6(std::vector<Def>&R){
 R.push_back(Def{"AWZW",{{"A","W+","Z","W+"}},false,false,{"e","MW","SW","wW"},{"MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AWZW(a);}});
 R.push_back(Def{"AhWW",{{"A","h","W+","W-"}},false,false,{"e","mh","MW","SW","wW"},{"mh","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AhWW(a);}});
 R.push_back(Def{"ZWZW",{{"Z","W+","Z","W+"}},false,false,{"e","mh","wh","MW","wW","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZWZW(a);}});
 R.push_back(Def{"dWgu",{{"d","W+","g","u"}},false,false,{"e","gs","m:u","m:d","MW","SW"},{"m:u","m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_dWgu(a);}});
 R.push_back(Def{"dddd",{{"d","D","d","D"}},false,false,{"e","gs","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp_gluon_S","amp_rest_S","amp_gluon_T","amp_rest_T"},{"amp2"},[](const LD*a)->Obj*{return new A_dddd(a);}});
 R.push_back(Def{"dggd",{{"D","g","g","D"}},false,false,{"gs","m:d"},{"m:d"},{"amp_Num"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_dggd(a);}});
 R.push_back(Def{"eZeh",{{"e","Z","e","h"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eZeh(a);}});
 R.push_back(Def{"eeee2",{{"e","e","e","e"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeee2(a);}});
 R.push_back(Def{"emem",{{"e","m","e","m"}},false,false,{"e","m:e","m:m","mh","wh","MW","SW","wZ"},{"m:e","m:m","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_emem(a);}});
 R.push_back(Def{"gWud",{{"g","W+","u","D"}},false,false,{"e","gs","m:u","m:d","MW","SW"},{"m:u","m:d","MW"},{"amp"},{"amp2","amp2_gplus"},[](const LD*a)->Obj*{return new A_gWud(a);}});
 R.push_back(Def{"guZu",{{"g","u","Z","u"}},false,false,{"e","gs","m:u","MW","SW"},{"m:u","MW"},{"amp"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_guZu(a);}});
 R.push_back(Def{"hhhh",{{"h","h","h","h"}},false,false,{"e","mh","wh","MW","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hhhh(a);}});
 R.push_back(Def{"nenenene2",{{"ne","ne","ne","ne"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nenenene2(a);}});
 R.push_back(Def{"uWWu",{{"u","W+","W+","u"}},false,false,{"e","m:u","m:d","mh","wh","MW","SW","wZ"},{"m:u","m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uWWu(a);}});
 R.push_back(Def{"udnl",{{"u","D","nl","L"}},false,false,{"e","m:u","m:d","m:l","MW","wW","SW"},{"m:u","m:d","m:l","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_udnl(a);}});
 R.push_back(Def{"unnu",{{"u","nm","nm","u"}},false,false,{"e","m:u","MW","SW","wZ"},{"m:u","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_unnu(a);}});
 R.push_back(Def{"uudd",{{"u","U","d","D"}},false,false,{"e","gs","m:u","m:d","mh","wh","MW","wW","SW","wZ"},{"m:u","m:d","mh","MW"},{"amp_gluon","amp_rest","amp_W"},{"amp2"},[](const LD*a)->Obj*{return new A_uudd(a);}});
}
}
