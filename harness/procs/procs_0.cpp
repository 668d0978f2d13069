// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AAWW.h"
#include "SM/include/AZWW.h"
#include "SM/include/AuZu.h"
#include "SM/include/ZZZZ.h"
#include "SM/include/dZdh.h"
#include "SM/include/ddee.h"
#include "SM/include/dnnd.h"
#include "SM/include/eeAZ.h"
#include "SM/include/eehh.h"
#include "SM/include/enWh.h"
#include "SM/include/gZuu.h"
#include "SM/include/hWWh.h"
#include "SM/include/menn.h"
#include "SM/include/nenmnenm.h"
#include "SM/include/uZuh.h"
#include "SM/include/udud.h"
#include "SM/include/uuAA.h"
#include "SM/include/uuhh.h"
namespace pr {
struct A_AAWW : Obj { spinas::AAWW t; A_AAWW(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus_Aplus();case 2:return t.amp2_Aplus_Aminus();}throw 1;}
};
struct A_AZWW : Obj { spinas::AZWW t; A_AZWW(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_AuZu : Obj { spinas::AuZu t; A_AuZu(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_ZZZZ : Obj { spinas::ZZZZ t; A_ZZZZ(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dZdh : Obj { spinas::dZdh t; A_dZdh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ddee : Obj { spinas::ddee t; A_ddee(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dnnd : Obj { spinas::dnnd t; A_dnnd(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeAZ : Obj { spinas::eeAZ t; A_eeAZ(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eehh : Obj { spinas::eehh t; A_eehh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_enWh : Obj { spinas::enWh t; A_enWh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gZuu : Obj { spinas::gZuu t; A_gZuu(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_hWWh : Obj { spinas::hWWh t; A_hWWh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_menn : Obj { spinas::menn t; A_menn(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nenmnenm : Obj { spinas::nenmnenm t; A_nenmnenm(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp();}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uZuh : Obj { spinas::uZuh t; A_uZuh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_udud : Obj { spinas::udud t; A_udud(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);case 2:return t.amp_W(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuAA : Obj { spinas::uuAA t; A_uuAA(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuhh : Obj { spinas::uuhh t; A_uuhh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_0(std::vector<Def>&R){
 R.push_back(Def{"AAWW",{{"A","A","W+","W-"}},false,false,{"e","MW","SW","wW"},{"MW"},{"amp"},{"amp2","amp2_Aplus_Aplus","amp2_Aplus_Aminus"},[](const LD*a)->Obj*{return new A_AAWW(a);}});
 R.push_back(Def{"AZWW",{{"A","Z","W+","W-"}},false,false,{"e","MW","SW","wW"},{"MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AZWW(a);}});
 R.push_back(Def{"AuZu",{{"A","u","Z","u"}},false,false,{"e","m:u","MW","SW"},{"m:u","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AuZu(a);}});
 R.push_back(Def{"ZZZZ",{{"Z","Z","Z","Z"}},false,false,{"e","mh","wh","MW","SW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZZZZ(a);}});
 R.push_back(Def{"dZdh",{{"d","Z","d","h"}},false,false,{"e","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_dZdh(a);}});
 R.push_back(Def{"ddee",{{"d","D","e","E"}},false,false,{"e","m:d","m:e","mh","wh","MW","SW","wZ"},{"m:d","m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddee(a);}});
 R.push_back(Def{"dnnd",{{"d","nm","nm","d"}},false,false,{"e","m:d","MW","SW","wZ"},{"m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_dnnd(a);}});
 R.push_back(Def{"eeAZ",{{"e","E","A","Z"}},false,false,{"e","m:e","MW","SW"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeAZ(a);}});
 R.push_back(Def{"eehh",{{"e","E","h","h"}},false,false,{"e","m:e","mh","wh","MW","SW"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eehh(a);}});
 R.push_back(Def{"enWh",{{"E","ne","W+","h"}},false,false,{"e","m:e","mh","MW","wW","SW"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_enWh(a);}});
 R.push_back(Def{"gZuu",{{"g","Z","u","U"}},false,false,{"e","gs","m:u","MW","SW"},{"m:u","MW"},{"amp"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_gZuu(a);}});
 R.push_back(Def{"hWWh",{{"h","W+","W+","h"}},false,false,{"e","mh","wh","MW","SW","wW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hWWh(a);}});
 R.push_back(Def{"menn",{{"M","e","ne","Nm"}},false,false,{"e","m:e","m:m","MW","wW","SW"},{"m:e","m:m","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_menn(a);}});
 R.push_back(Def{"nenmnenm",{{"ne","nm","ne","nm"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nenmnenm(a);}});
 R.push_back(Def{"uZuh",{{"u","Z","u","h"}},false,false,{"e","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uZuh(a);}});
 R.push_back(Def{"udud",{{"u","d","u","d"}},false,false,{"e","gs","m:u","m:d","mh","wh","MW","wW","SW","wZ"},{"m:u","m:d","mh","MW"},{"amp_gluon","amp_rest","amp_W"},{"amp2"},[](const LD*a)->Obj*{return new A_udud(a);}});
 R.push_back(Def{"uuAA",{{"u","U","A","A"}},false,false,{"e","m:u"},{"m:u"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuAA(a);}});
 R.push_back(Def{"uuhh",{{"u","U","h","h"}},false,false,{"e","m:u","mh","wh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuhh(a);}});
}
}
