// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include "SM/include/AWAW.h"
#include "SM/include/AdZd.h"
#include "SM/include/WdZu.h"
#include "SM/include/dAdh.h"
#include "SM/include/ddZZ.h"
#include "SM/include/deed.h"
#include "SM/include/eWWe.h"
#include "SM/include/eeZh.h"
#include "SM/include/eenmnm.h"
#include "SM/include/gAdd.h"
#include "SM/include/gguu.h"
#include "SM/include/hhWW.h"
#include "SM/include/nZnh.h"
#include "SM/include/uAAu.h"
#include "SM/include/udWh.h"
#include "SM/include/uhuh.h"
#include "SM/include/uuZh.h"
#include "SM/include/uuuu2.h"
namespace pr {
struct A_AWAW : Obj { spinas::AWAW t; A_AWAW(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_AdZd : Obj { spinas::AdZd t; A_AdZd(const LD*a):t(a[0],a[1],a[2],a[3]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_WdZu : Obj { spinas::WdZu t; A_WdZu(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_dAdh : Obj { spinas::dAdh t; A_dAdh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();}throw 1;}
};
struct A_ddZZ : Obj { spinas::ddZZ t; A_ddZZ(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_deed : Obj { spinas::deed t; A_deed(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eWWe : Obj { spinas::eWWe t; A_eWWe(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eeZh : Obj { spinas::eeZh t; A_eeZh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_eenmnm : Obj { spinas::eenmnm t; A_eenmnm(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_gAdd : Obj { spinas::gAdd t; A_gAdd(const LD*a):t(a[0],a[1],a[2]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_gplus_Aplus();case 2:return t.amp2_gplus_Aminus();}throw 1;}
};
struct A_gguu : Obj { spinas::gguu t; A_gguu(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_Num(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Feynman();case 2:return t.amp2_gplus_gplus();case 3:return t.amp2_gplus_gminus();}throw 1;}
};
struct A_hhWW : Obj { spinas::hhWW t; A_hhWW(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_nZnh : Obj { spinas::nZnh t; A_nZnh(const LD*a):t(a[0],a[1],a[2],a[3],a[4]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uAAu : Obj { spinas::uAAu t; A_uAAu(const LD*a):t(a[0],a[1]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();case 1:return t.amp2_Aplus();case 2:return t.amp2_Aminus();}throw 1;}
};
struct A_udWh : Obj { spinas::udWh t; A_udWh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2],a[3]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uhuh : Obj { spinas::uhuh t; A_uhuh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuZh : Obj { spinas::uuZh t; A_uuZh(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp(d[0],d[1],d[2]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
struct A_uuuu2 : Obj { spinas::uuuu2 t; A_uuuu2(const LD*a):t(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]){(void)a;}
  void set_masses(const LD*a)override{(void)a;t.set_masses(a[0],a[1],a[2]);}
  void set_momenta(const LD*a,const LD*b,const LD*c,const LD*d)override{t.set_momenta(a,b,c,d);}
  CD amp(int w,const int*d)override{(void)d;switch(w){case 0:return t.amp_gluon_U(d[0],d[1],d[2],d[3]);case 1:return t.amp_rest_U(d[0],d[1],d[2],d[3]);case 2:return t.amp_gluon_T(d[0],d[1],d[2],d[3]);case 3:return t.amp_rest_T(d[0],d[1],d[2],d[3]);}throw 1;}
  LD amp2(int w)override{switch(w){case 0:return t.amp2();}throw 1;}
};
void reg_4(std::vector<Def>&R){
 R.push_back(Def{"AWAW",{{"A","W+","A","W+"}},false,false,{"e","MW","SW","wW"},{"MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AWAW(a);}});
 R.push_back(Def{"AdZd",{{"A","d","Z","d"}},false,false,{"e","m:d","MW","SW"},{"m:d","MW"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_AdZd(a);}});
 R.push_back(Def{"WdZu",{{"W+","d","Z","u"}},false,false,{"e","m:u","m:d","MW","SW","wW"},{"m:u","m:d","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_WdZu(a);}});
 R.push_back(Def{"dAdh",{{"d","A","d","h"}},false,false,{"e","m:d","mh","MW","SW"},{"m:d","mh","MW"},{"amp"},{"amp2","amp2_Aplus"},[](const LD*a)->Obj*{return new A_dAdh(a);}});
 R.push_back(Def{"ddZZ",{{"d","D","Z","Z"}},false,false,{"e","m:d","mh","wh","MW","SW","wZ"},{"m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_ddZZ(a);}});
 R.push_back(Def{"deed",{{"d","e","e","d"}},false,false,{"e","m:d","m:e","mh","wh","MW","SW","wZ"},{"m:d","m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_deed(a);}});
 R.push_back(Def{"eWWe",{{"e","W+","W+","e"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eWWe(a);}});
 R.push_back(Def{"eeZh",{{"e","E","Z","h"}},false,false,{"e","m:e","mh","wh","MW","SW","wZ"},{"m:e","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eeZh(a);}});
 R.push_back(Def{"eenmnm",{{"e","E","nm","Nm"}},false,false,{"e","m:e","MW","SW","wZ"},{"m:e","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_eenmnm(a);}});
 R.push_back(Def{"gAdd",{{"g","A","d","D"}},false,false,{"e","gs","m:d"},{"m:d"},{"amp"},{"amp2","amp2_gplus_Aplus","amp2_gplus_Aminus"},[](const LD*a)->Obj*{return new A_gAdd(a);}});
 R.push_back(Def{"gguu",{{"g","g","u","U"}},false,false,{"gs","m:u"},{"m:u"},{"amp_Num"},{"amp2","amp2_Feynman","amp2_gplus_gplus","amp2_gplus_gminus"},[](const LD*a)->Obj*{return new A_gguu(a);}});
 R.push_back(Def{"hhWW",{{"h","h","W+","W-"}},false,false,{"e","mh","wh","MW","SW","wW"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_hhWW(a);}});
 R.push_back(Def{"nZnh",{{"ne","Z","ne","h"}},false,false,{"e","mh","MW","SW","wZ"},{"mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_nZnh(a);}});
 R.push_back(Def{"uAAu",{{"u","A","A","u"}},false,false,{"e","m:u"},{"m:u"},{"amp"},{"amp2","amp2_Aplus","amp2_Aminus"},[](const LD*a)->Obj*{return new A_uAAu(a);}});
 R.push_back(Def{"udWh",{{"u","D","W+","h"}},false,false,{"e","m:u","m:d","mh","MW","wW","SW"},{"m:u","m:d","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_udWh(a);}});
 R.push_back(Def{"uhuh",{{"u","h","u","h"}},false,false,{"e","m:u","mh","wh","MW","SW"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uhuh(a);}});
 R.push_back(Def{"uuZh",{{"u","U","Z","h"}},false,false,{"e","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp"},{"amp2"},[](const LD*a)->Obj*{return new A_uuZh(a);}});
 R.push_back(Def{"uuuu2",{{"u","u","u","u"}},false,false,{"e","gs","m:u","mh","wh","MW","SW","wZ"},{"m:u","mh","MW"},{"amp_gluon_U","amp_rest_U","amp_gluon_T","amp_rest_T"},{"amp2"},[](const LD*a)->Obj*{return new A_uuuu2(a);}});
}
}
