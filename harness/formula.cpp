// S07: the formula the SAT planner builds for a depth against all decompositions of that depth.  usage: formula file seed
#define PDT_NO_MAIN
#include "pdt.cpp"
#define ipasir_signature mini_signature
#define ipasir_init mini_init
#define ipasir_release mini_release
#define ipasir_add mini_add
#define ipasir_assume mini_assume
#define ipasir_solve mini_solve
#define ipasir_val mini_val
#define ipasir_failed mini_failed
#define ipasir_set_terminate mini_set_terminate
#define ipasir_set_learn mini_set_learn
#include "ipasir_mini.cpp"
#undef ipasir_signature
#undef ipasir_init
#undef ipasir_release
#undef ipasir_add
#undef ipasir_assume
#undef ipasir_solve
#undef ipasir_val
#undef ipasir_failed
#undef ipasir_set_terminate
#undef ipasir_set_learn
#include "sat/sat_encoder.h"
#include "sat/partial_order.h"
static vector<int> F; static long nClauses=0; static int theSolver;
extern "C" {
const char*ipasir_signature(){ return "recorder"; }
void*ipasir_init(){ return &theSolver; }
void ipasir_release(void*){}
void ipasir_add(void*s,int32_t l){ if(s!=&theSolver) viol("solver","clause added to something that is not the solver"); F.push_back(l); if(!l) nClauses++; }
void ipasir_assume(void*,int32_t){} int ipasir_solve(void*){ return 0; } int32_t ipasir_val(void*,int32_t){ return 0; } int ipasir_failed(void*,int32_t){ return 0; }
void ipasir_set_terminate(void*,void*,int(*)(void*)){} void ipasir_set_learn(void*,void*,int,void(*)(void*,int32_t*)){}
}
bool createFormulaForDepth(void*,PDT*,Model*,sat_capsule&,MatchingData&,int,bool,bool,sat_pruning,bool);
typedef vector<pair<int,int>> Asg; // (leaf node, index of the primitive), sorted
struct Enum { map<array<int,3>,vector<Asg>> memo; bool complete=true; size_t cap; Rng&R; Enum(size_t c,Rng&r):cap(c),R(r){}
  const vector<Asg>& of(int i,int prim,int idx){ auto it=memo.find({i,prim,idx}); if(it!=memo.end()) return it->second; set<Asg> r; Node&x=T[i];
    if(prim){ if(x.leaf) r.insert(Asg{{i,idx}}); else { auto [c,ti,ci]=x.n->positionOfPrimitivesInChildren[idx]; auto&o=of(x.kids[c],1,ti); r.insert(o.begin(),o.end()); } }
    else if(x.n->expanded) for(auto&q:x.m[idx]){ vector<Asg> cur(1); for(size_t s=0;s<q.child.size();s++){ auto&o=of(x.kids[q.child[s]],q.kind[s],q.idx[s]); vector<Asg> nx; for(auto&a:cur) for(auto&b:o){ Asg z=a; z.insert(z.end(),b.begin(),b.end()); nx.push_back(z); } if(nx.size()>cap){ complete=false; shuffle(nx.begin(),nx.end(),R.g); nx.resize(cap); } cur=nx; } for(auto&a:cur){ sort(a.begin(),a.end()); r.insert(a); } }
    vector<Asg> v(r.begin(),r.end()); if(v.size()>cap){ complete=false; shuffle(v.begin(),v.end(),R.g); v.resize(cap); } return memo[{i,prim,idx}]=v; } };
static ref::St lm(int*l,int n){ ref::St r=0; for(int i=0;i<n;i++) r|=ref::bit(l[i]); return r; }
static bool step(int a,ref::St s,ref::St&t){ ref::St q=lm(M->precLists[a],M->numPrecs[a]); if((s&q)!=q) return false; t=(s&~lm(M->delLists[a],M->numDels[a]))|lm(M->addLists[a],M->numAdds[a]); return true; }
static int act(const pair<int,int>&x){ return T[x.first].n->possiblePrimitives[x.second]; }
// can the chosen actions be executed in an order that agrees with the tree, reaching the goal?
static int executable(const Asg&z,ref::St s0){ ref::St g=lm(M->gList,M->gSize); int n=z.size();
  if(TO){ ref::St s=s0; for(auto&x:z) if(!step(act(x),s,s)) return 0; return (s&g)==g; }
  if(n>11) return -1; vector<int> pred(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(i!=j&&before(T[z[j].first].n,T[z[i].first].n)) pred[i]|=1<<j; vector<set<ref::St>> at_(1<<n); at_[0]={s0}; long w=0;
  for(int m=0;m<(1<<n);m++) for(auto s:at_[m]) for(int i=0;i<n;i++) if(!(m>>i&1)&&(pred[i]&m)==pred[i]){ ref::St t; if(w++>200000) return -1; if(step(act(z[i]),s,t)) at_[m|1<<i].insert(t); }
  for(auto s:at_[(1<<n)-1]) if((s&g)==g) return 1; return 0; }
static string str(const Asg&z){ string r; for(auto&x:z){ r+=M->taskNames[act(x)]+"@"; for(int p:T[x.first].n->path) r+=to_string(p); r+=" "; } return r.empty()?"no action at all":r; }
static Solver*base=nullptr;
// is there a model with exactly these actions at the leafs?
static bool query(const Asg&z,const vector<int>&leafs,long&conf){ set<pair<int,int>> in(z.begin(),z.end()); vector<int> units; for(int l:leafs){ PDT*n=T[l].n; for(size_t p=0;p<n->possiblePrimitives.size();p++){ int v=n->primitiveVariable[p]; bool want=in.count({l,(int)p}); if(v==-1){ if(want) return false; continue; } units.push_back(want?v:-v); } }
  Solver s; vector<Lit> c; for(int u:units){ s.grow(abs(u)); s.addClause({mk(u)}); } for(int l:F){ if(l){ s.grow(abs(l)); c.push_back(mk(l)); } else { s.addClause(c); c.clear(); if(!s.ok) return false; } } int r=s.solve(); conf+=s.conf; return r==10; }
int main(int c,char**v){ Rng R(strtoull(v[2],0,10)); ref::Problem p=setup(v[1],R); if(CNT["empty_methods"]||p.nf==0){ finish(); return 0; } bool block=R.p(.5),mutex=R.p(.5); sat_pruning pr=(sat_pruning)R(3); cnt(S("pruning_%d",(int)pr)); if(block) cnt("block_compression"); if(mutex) cnt("mutexes");
  string opts=S("block compression %d, mutexes %d, pruning %d, separate leafs %d, %s order",block,mutex,(int)pr,EFF,TO?"total":"partial"); ref::St s0=ref::mask(p.s0); PDT*root=new PDT(M); sat_capsule cap; int first=1+(R.p(.3)?R(2):0);
  for(int K=first;K<=7&&!NVIOL;K++){ F.clear(); nClauses=0; MatchingData md; { PDT*probe=new PDT(M); probe->expandPDTUpToLevel(K,M,EFF); long n=0,sz=0; function<void(PDT*)> go=[&](PDT*x){ n++; sz+=x->possiblePrimitives.size(); for(PDT*y:x->children) go(y); }; go(probe); if(n>160||sz>600){ cnt("trees_cut"); break; } }
    bool made=createFormulaForDepth(&theSolver,root,M,cap,md,K,block,mutex,pr,EFF); T.clear(); IX.clear(); T.reserve(30000); build(root); for(size_t i=0;i<T.size()&&!NVIOL;i++) checkNode(T[i]); if(NVIOL) break; vector<int> leafs; int deep=0; for(auto&x:T){ if(x.leaf) leafs.push_back(x.id); deep=max<int>(deep,x.n->path.size()); }
    cnt("formulas"); cnt("clauses",nClauses); for(int l:F) if(l==INT32_MIN||abs(l)>=cap.number_of_variables+1){ viol("literal",S("depth %d: literal %d of %d variables",K,l,cap.number_of_variables)); break; } if(NVIOL) break;
    Enum E(3000,R); vector<Asg> all=E.of(0,0,0); set<Asg> known(all.begin(),all.end()); vector<Asg> good,bad; long un=0; for(auto&z:all){ int e=executable(z,s0); if(e<0) un++; else (e?good:bad).push_back(z); } cnt("decompositions",all.size()); cnt("executable",good.size()); if(E.complete) cnt("complete_enumerations");
    if(!made){ cnt("declared_unsolvable"); if(!good.empty()) viol("lost",S("depth %d, %s: no formula is generated, but there is a solution: ",K,opts.c_str())+str(good[0])); if(deep<K) break; continue; }
    shuffle(good.begin(),good.end(),R.g); shuffle(bad.begin(),bad.end(),R.g); long conf=0; size_t N=nClauses>20000?6:nClauses>5000?14:30;
    for(size_t i=0;i<good.size()&&i<N&&!NVIOL;i++){ cnt("solutions_asked"); if(!query(good[i],leafs,conf)) viol("lost",S("depth %d, %s: no model for the solution ",K,opts.c_str())+str(good[i])); }
    for(size_t i=0;i<bad.size()&&i<N&&!NVIOL;i++){ cnt("non_solutions_asked"); if(query(bad[i],leafs,conf)) viol("unsound",S("depth %d, %s: there is a model for a decomposition that cannot be executed: ",K,opts.c_str())+str(bad[i])); }
    if(E.complete&&!un&&!all.empty()) for(size_t i=0;i<N/2&&!NVIOL;i++){ Asg z=good.size()&&R.p(.6)?good[R(good.size())]:all[R(all.size())]; int k=R(4); if(k==0&&z.size()) z.erase(z.begin()+R(z.size())); else { int l=leafs[R(leafs.size())]; int np=T[l].n->possiblePrimitives.size(); if(!np) continue; Asg y; for(auto&x:z) if(x.first!=l) y.push_back(x); y.push_back({l,R(np)}); sort(y.begin(),y.end()); z=y; }
        if(known.count(z)) continue; cnt("non_decompositions_asked"); if(query(z,leafs,conf)) viol("unsound",S("depth %d, %s: there is a model for actions that are no decomposition: ",K,opts.c_str())+str(z)); }
    cnt("conflicts",conf); if(deep<K) break; }
  finish(); return 0; }
