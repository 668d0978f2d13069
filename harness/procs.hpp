// Uniform access to the process classes of the library under test.
#pragma once
#include <string>
#include <vector>
#include <array>
#include <complex>
#include <memory>
#include "spinas.h"

namespace pr {
typedef ::ldouble LD;
typedef ::cdouble CD;
struct Obj {
  virtual ~Obj(){}
  virtual void set_masses(const LD*)=0;
  virtual void set_momenta(const LD*,const LD*,const LD*,const LD*)=0;
  virtual CD amp(int which,const int*ds)=0;
  virtual LD amp2(int which)=0;
  virtual void set_v(LD){}
  virtual bool amp2_of_momenta(const LD*,const LD*,const LD*,const LD*,LD&){return false;}
};
struct Def {
  const char*name; std::array<std::string,4> parts; bool qed; bool has_v;
  std::vector<std::string> ctor, masses;      // parameter kinds
  std::vector<std::string> amps, amp2s;       // method names
  Obj*(*make)(const LD*);
};
std::vector<Def>& registry();
void register_all();
const Def* find(const std::string&name);
}
