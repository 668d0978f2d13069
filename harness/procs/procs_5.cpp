// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AWWh.h"
#include "SM/include/AeZe.h"
#include "SM/include/ZWWh.h"
#include "SM/include/dAgd.h"
#include "SM/include/ddZh.h"
#include "SM/include/dgdh.h"
#include "SM/include/eZZe.h"
#include "SM/include/eeee.h"
#include "SM/include/eheh.h"
#include "SM/include/gAuu.h"
#include "SM/include/guAu.h"
#include "SM/include/hhZZ.h"
#include "SM/include/nenenene.h"
#include "SM/include/uAuh.h"
#include "SM/include/udZW.h"
#include "SM/include/ulnd.h"
#include "SM/include/uucc.h"
namespace pr {
struct A_AWWh : Obj { spinas::AWWh t; A_AWWh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_AeZe : Obj { spinas::AeZe t; A_AeZe(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_ZWWh : Obj { spinas::ZWWh t; A_ZWWh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dAgd : Obj { spinas::dAgd t; A_dAgd(const LD*a):t(a[0],a[1],a[2]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_ddZh : Obj { spinas::ddZh t; A_ddZh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dgdh : Obj { spinas::dgdh t; A_dgdh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();}throw 1;}
};
struct A_eZZe : Obj { spinas::eZZe t; A_eZZe(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeee : Obj { spinas::eeee t; A_eeee(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eheh : Obj { spinas::eheh t; A_eheh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gAuu : Obj { spinas::gAuu t; A_gAuu(const LD*a):t(a[0],a[1],a[2]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus_Aplus();case 2:return t.amp2_gplus_Aminus();}throw 1;}
};
struct A_guAu : Obj { spinas::guAu t; A_guAu(const LD*a):t(a[0],a[1],a[2]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus();case 2:return t.amp2_gminus();}throw 1;}
};
struct A_hhZZ : Obj { spinas::hhZZ t; A_hhZZ(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nenenene : Obj { spinas::nenenene t; A_nenenene(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp();}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uAuh : Obj { spinas::uAuh t; A_uAuh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_udZW : Obj { spinas::udZW t; A_udZW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_ulnd : Obj { spinas::ulnd t; A_ulnd(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uucc : Obj { spinas::uucc t; A_uucc(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_5(std::vector<Def>&R){
 R.push_back(Def{"AWWh",{{"A","W+","W+","h"}},false,false,{"e","mh","MW","SW","wW"},{"mh","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_AWWh(a);}});
 R.push_back(Def{"AeZe",{{"A","e","Z","e"}},false,false,{"e","m:e","MW","SW"},{"m:e","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AeZe(a);}});
 R.push_back(Def{"ZWWh",{{"Z","W+","W+","h"}},false,false,{"e","mh","MW","SW","wW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ZWWh(a);}});
 R.push_back(Def{"dAgd",{{"d","A","g","d"}},false,false,{"e","gs","m:d"},{"m:d"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_dAgd(a);}});
 R.push_back(Def{"ddZh",{{"d","D","Z","h"}},false,false,{"e","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddZh(a);}});
 R.push_back(Def{"dgdh",{{"d","g","d","h"}},false,false,{"e","gs","m:d","mh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2","amp2_gplus"},[](const LD*a)->Obj*{return new A_dgdh(a);}});
 R.push_back(Def{"eZZe",{{"e","Z","Z","e"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eZZe(a);}});
 R.push_back(Def{"eeee",{{"e","E","e","E"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeee(a);}});
 R.push_back(Def{"eheh",{{"e","h","e","h"}},false,false,{"e","m:e","mh","wh","MW","SW"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eheh(a);}});
 R.push_back(Def{"gAuu",{{"g","A","u","U"}},false,false,{"e","gs","m:u"},{"m:u"},{"amp"},{"amp2","amp2_gplus_Aplus","amp2_gplus_Aminus"},[](const LD*a)->Obj*{return new A_gAuu(a);}});
 R.push_back(Def{"guAu",{{"g","u","A","u"}},false,false,{"e","gs","m:u"},{"m:u"},{"amp"},{"amp2","amp2_gplus","amp2_gminus"},[](const LD*a)->Obj*{return new A_guAu(a);}});
 R.push_back(Def{"hhZZ",{{"h","h","Z","Z"}},false,false,{"e","mh","wh","MW","SW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hhZZ(a);}});
 R.push_back(Def{"nenenene",{{"ne","Ne","ne","Ne"}},false,false,{"e","MW","SW","wZ"},{"MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nenenene(a);}});
 R.push_back(Def{"uAuh",{{"u","A","u","h"}},false,false,{"e","m:u","mh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_uAuh(a);}});
 R.push_back(Def{"udZW",{{"U","d","Z","W-"}},false,false,{"e","m:u","m:d","MW","SW","wW"},{"m:u","m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_udZW(a);}});
 R.push_back(Def{"ulnd",{{"u","l","nl","d"}},false,false,{"e","m:u","m:d","m:l","MW","wW","SW"},{"m:u","m:d","m:l","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ulnd(a);}});
 R.push_back(Def{"uucc",{{"u","U","c","C"}},false,false,{"e","gs","m:u","m:c","mh","wh","MW","SW","wZ"},{"m:u","m:c","mh","MW"},{"amp_gluon","amp_rest"},{"amp2"},[](const LD*a)->Obj*{return new A_uucc(a);}});
}
}
