// line protocol: "solve <file> <maxNodes> <maxDepth|-1> <maxSize>" -> "status cost exact len nodes cut"
#include "ref.hpp"
#include <iostream>
int main(){ std::string cmd; std::string line; while(std::getline(std::cin,line)){ std::istringstream i(line); std::string c,f; i>>c>>f; ref::Problem p=ref::parse(f); ref::Opt o; i>>o.maxNodes>>o.maxDepth>>o.maxSize; int fu=0; i>>fu; o.full=fu; ref::Result r=ref::solve(p,o); std::cout<<r.status<<" "<<r.cost<<" "<<r.costExact<<" "<<r.len<<" "<<r.nodes<<" "<<r.cut<<" "<<r.finite<<std::endl; } }
