#include "pbt.hpp"
#include <random>
namespace pbt { std::vector<Property>& properties(){static std::vector<Property> v;return v;} }
// the library seeds a random engine from the hardware: make that repeatable
unsigned int std::random_device::_M_getval(){ static unsigned n=0; return (unsigned)pbt::mix(++n); }
int main(int c,char**v){return pbt::main_(c,v);}
