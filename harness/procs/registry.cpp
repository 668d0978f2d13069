// generated by tools/gen_adapters.py
#include "../procs.hpp"
#include <algorithm>
#include <cstring>
namespace pr {
void reg_0(std::vector<Def>&);
void reg_1(std::vector<Def>&);
void reg_2(std::vector<Def>&);
void reg_3(std::vector<Def>&);
void reg_4(std::vector<Def>&);
void reg_5(std::vector<Def>&);
void reg_6(std::vector<Def>&);
void reg_7(std::vector<Def>&);
std::vector<Def>& registry(){static std::vector<Def> r;return r;}
void register_all(){auto&r=registry();if(!r.empty())return;reg_0(r);reg_1(r);reg_2(r);reg_3(r);reg_4(r);reg_5(r);reg_6(r);reg_7(r);std::sort(r.begin(),r.end(),[](const Def&a,const Def&b){return std::strcmp(a.name,b.name)<0;});}
const Def* find(const std::string&n){for(auto&d:registry())if(n==d.name)return &d;return nullptr;}
}
