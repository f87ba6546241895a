#include <unordered_set>
#include <unordered_map>
// C01/C02: random operation histories over the decision-diagram library against truth tables.
// usage: cudd_fuzz c01|c02 seed histories ops
#include <bitset>
#include <map>
#include <set>
#include <vector>
#include <array>
#include <string>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <functional>
extern "C" {
#include "util.h"
#include "mtrInt.h"
#include "config.h"
#include "cuddInt.h"
}
#undef fail
using namespace std;
static map<string,long> CNT; static int NVIOL=0; static string CTX;
static void cnt(const string&k,long v=1){ CNT[k]+=v; }
// reported once per process and without ending the history, because it is a known finding
static void clausesMissing(){ static bool once=false; if(!once){ once=true; printf("\n@VIOL two-literal-clauses-reordered|Cudd_FindTwoLiteralClauses misses an implied clause after reordering (%s)\n",CTX.c_str()); } }
static void viol(const string&sig,const string&msg){ if(NVIOL++<3){ printf("\n@VIOL %s|%s (%s)\n",sig.c_str(),msg.c_str(),CTX.c_str()); fflush(stdout);} }
static string S(const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
struct Rng { mt19937_64 g; Rng(uint64_t s):g(s){} int operator()(int n){ return n<=0?0:(int)(g()%n); } bool p(double x){ return (g()>>11)*0x1p-53<x; } };
const int N=8; typedef bitset<256> TT; typedef array<double,256> AT;
static TT V[N],ALL;
static TT cof(const TT&t,int i,bool b){ TT h=b?((t&V[i])>>(1<<i)):(t&~V[i]); return h|(h<<(1<<i)); }
static TT ite(const TT&f,const TT&g,const TT&h){ return (f&g)|(~f&h); }
static bool leq(const TT&a,const TT&b){ return (a&~b).none(); }
static TT ex(TT t,int mask){ for(int i=0;i<N;i++) if(mask>>i&1) t=cof(t,i,0)|cof(t,i,1); return t; }
static TT un(TT t,int mask){ for(int i=0;i<N;i++) if(mask>>i&1) t=cof(t,i,0)&cof(t,i,1); return t; }
static TT xe(TT t,int mask){ for(int i=0;i<N;i++) if(mask>>i&1) t=cof(t,i,0)^cof(t,i,1); return t; }
static bool dep(const TT&t,int i){ return cof(t,i,0)!=cof(t,i,1); }
static int sup(const TT&t){ int m=0; for(int i=0;i<N;i++) if(dep(t,i)) m|=1<<i; return m; }
static TT litcube(const vector<int>&l){ TT t=ALL; for(int i=0;i<N;i++) if(l[i]!=2) t&=l[i]?V[i]:~V[i]; return t; }
static bool iscube(const TT&t,vector<int>*l=nullptr){ if(t.none()) return false; vector<int> c(N,2); for(int i=0;i<N;i++){ if(leq(t,V[i])) c[i]=1; else if(leq(t,~V[i])) c[i]=0; } if(l) *l=c; return litcube(c)==t; }
static string show(const TT&t){ string s; for(int i=0;i<256;i+=4){ int h=0; for(int j=0;j<4;j++) h|=t[i+j]<<j; s+="0123456789abcdef"[h]; } return s; }

static void finish(){ printf("\n"); for(auto&x:CNT) printf("@CNT %s %ld\n",x.first.c_str(),x.second); printf("@DONE\n"); fflush(stdout); _Exit(0); }
struct W { DdManager*m; int n,nz; bool stress; Rng&r; bool autodyn=false;
  // ---- handles
  unordered_map<DdNode*,int> heldB,heldZ;
  // the nodes alive are those below the diagrams held, the variables and the initial constants
  void alive(){ Cudd_ReadNodeCount(m); unordered_set<DdNode*> s; unordered_map<DdNode*,long> refs; function<void(DdNode*)> go=[&](DdNode*x){ x=Cudd_Regular(x); if(!s.insert(x).second||Cudd_IsConstant(x)) return; for(DdNode*k:{Cudd_T(x),Cudd_E(x)}){ refs[Cudd_Regular(k)]++; go(k); } };
    for(DdNode*k:{Cudd_ReadOne(m),Cudd_ReadZero(m),Cudd_ReadPlusInfinity(m),Cudd_ReadMinusInfinity(m)}){ refs[k]++; go(k); } for(int i=0;i<Cudd_ReadSize(m);i++){ refs[Cudd_ReadVars(m,i)]++; go(Cudd_ReadVars(m,i)); } for(auto&x:heldB){ refs[Cudd_Regular(x.first)]+=x.second; go(x.first); } long l=(long)Cudd_ReadKeys(m)-Cudd_ReadDead(m); cnt("conservation_checks"); if(!ok(l==(long)s.size(),S("%ld nodes are alive instead of %zu",l,s.size()))) return;
    unordered_set<DdNode*> sz; long c=0; function<void(DdNode*)> gz=[&](DdNode*x){ if(Cudd_IsConstant(x)||!sz.insert(x).second) return; c++; for(DdNode*k:{Cudd_T(x),Cudd_E(x)}){ refs[k]++; gz(k); } }; for(auto&x:heldZ){ refs[x.first]+=x.second; gz(x.first); } for(int i=0;i<Cudd_ReadZddSize(m);i++){ DdNode*u=Cudd_ReadZddOne(m,i); if(!i) refs[u]++; gz(u); } l=Cudd_zddReadNodeCount(m)-2; if(!ok(l==c,S("%ld ZDD nodes are alive instead of %ld",l,c))) return;
    for(auto&x:refs){ cnt("reference_counts_checked"); if(!ok((long)x.first->ref==x.second,S("%s has %ld references instead of %ld",Cudd_IsConstant(x.first)?S("constant %g",Cudd_V(x.first)).c_str():S("node of variable %d",(int)Cudd_NodeReadIndex(x.first)).c_str(),(long)x.first->ref,x.second))) return; } }
  // no diagram although no limit applies: nothing sensible can be done afterwards
  void missing(){ viol("null-"+opname,S("an operation returned no diagram, error code %d, during %s",(int)Cudd_ReadErrorCode(m),opname.c_str())); finish(); }
  struct B { W*w=nullptr; DdNode*p=nullptr; B(){} B(W*w,DdNode*p):w(w),p(p){ if(p) get(); else w->missing(); } B(const B&o):w(o.w),p(o.p){ if(p) get(); } B&operator=(const B&o){ B k(o); drop(); w=o.w; p=o.p; if(p) get(); return *this; } void get(){ Cudd_Ref(p); w->heldB[p]++; } void drop(){ if(p){ auto it=w->heldB.find(p); if(!--it->second) w->heldB.erase(it); Cudd_RecursiveDeref(w->m,p); } p=nullptr; } ~B(){ drop(); } operator DdNode*()const{ return p; } };
  struct Z { W*w=nullptr; DdNode*p=nullptr; Z(){} Z(W*w,DdNode*p):w(w),p(p){ if(p) get(); else w->missing(); } Z(const Z&o):w(o.w),p(o.p){ if(p) get(); } Z&operator=(const Z&o){ Z k(o); drop(); w=o.w; p=o.p; if(p) get(); return *this; } void get(){ Cudd_Ref(p); w->heldZ[p]++; } void drop(){ if(p){ auto it=w->heldZ.find(p); if(!--it->second) w->heldZ.erase(it); Cudd_RecursiveDerefZdd(w->m,p); } p=nullptr; } ~Z(){ drop(); } operator DdNode*()const{ return p; } };
  struct PB { B f; TT t; }; struct PA { B f; AT t; }; struct PZ { Z f; TT t; };
  vector<PB> bp; vector<PA> ap; vector<PZ> zp;
  W(Rng&r,bool stress):r(r),stress(stress){}
  B own(DdNode*p){ return B(this,p); }
  // ---- observation: an evaluator of its own
  bool broken=false;
  void br(const string&s){ if(!broken){ broken=true; viol("structure",s); } }
  TT tt(DdNode*f){ map<DdNode*,TT> memo; function<TT(DdNode*)> go=[&](DdNode*x)->TT{ DdNode*q=Cudd_Regular(x); bool c=Cudd_IsComplement(x); if(Cudd_IsConstant(q)){ if(q!=Cudd_ReadOne(m)) br("BDD with a terminal other than one"); return c?TT():ALL; }
      auto it=memo.find(q); if(it==memo.end()){ int i=Cudd_NodeReadIndex(q); if(i<0||i>=n){ br(S("node with variable %d of %d",i,n)); return TT(); } DdNode*T=Cudd_T(q),*E=Cudd_E(q); if(T==E) br("node with equal children"); if(Cudd_IsComplement(T)) br("complemented then edge"); int l=Cudd_ReadPerm(m,i); for(DdNode*k:{T,E}) if(!Cudd_IsConstant(k)){ int j=Cudd_NodeReadIndex(Cudd_Regular(k)); if(j>=0&&j<n&&Cudd_ReadPerm(m,j)<=l) br("child not below its parent in the order"); } if(broken) return TT(); TT a=go(T),b=go(E); it=memo.insert({q,ite(V[i],a,b)}).first; } return c?~it->second:it->second; }; return go(f); }
  AT at(DdNode*f){ map<DdNode*,AT> memo; function<const AT&(DdNode*)> go=[&](DdNode*q)->const AT&{ auto it=memo.find(q); if(it!=memo.end()) return it->second; AT a; if(Cudd_IsComplement(q)){ br("ADD with complemented edge"); a.fill(0); } else if(Cudd_IsConstant(q)) a.fill(Cudd_V(q)); else { int i=Cudd_NodeReadIndex(q); if(i<0||i>=n){ br("ADD node with a bad variable"); a.fill(0); return memo[q]=a; } DdNode*T=Cudd_T(q),*E=Cudd_E(q); if(T==E) br("ADD node with equal children"); int l=Cudd_ReadPerm(m,i); for(DdNode*k:{T,E}) if(!Cudd_IsComplement(k)&&!Cudd_IsConstant(k)&&Cudd_ReadPerm(m,Cudd_NodeReadIndex(k))<=l) br("ADD child not below its parent"); if(broken){ a.fill(0); return memo[q]=a; } const AT&x=go(T);const AT&y=go(E); for(int k=0;k<256;k++) a[k]=V[i][k]?x[k]:y[k]; } return memo[q]=a; }; return go(f); }
  TT zt(DdNode*f){ map<DdNode*,TT> memo; function<TT(DdNode*)> go=[&](DdNode*q)->TT{ if(Cudd_IsComplement(q)){ br("ZDD with complemented edge"); return TT(); } if(q==Cudd_ReadZero(m)) return TT(); if(q==Cudd_ReadOne(m)){ TT t; t[0]=1; return t; } if(Cudd_IsConstant(q)){ br("ZDD with a strange terminal"); return TT(); } auto it=memo.find(q); if(it!=memo.end()) return it->second; int i=Cudd_NodeReadIndex(q); if(i<0||i>=nz){ br("ZDD node with a bad variable"); return TT(); } DdNode*T=Cudd_T(q),*E=Cudd_E(q); if(T==Cudd_ReadZero(m)) br("ZDD node with empty then child"); int l=Cudd_ReadPermZdd(m,i); for(DdNode*k:{T,E}) if(!Cudd_IsComplement(k)&&!Cudd_IsConstant(k)&&Cudd_ReadPermZdd(m,Cudd_NodeReadIndex(k))<=l) br("ZDD child not below its parent"); if(broken) return TT(); TT a=go(T),b=go(E); return memo[q]=b|(a<<(1<<i)); }; return go(f); }
  // ---- checks
  string opname;
  void fail(const string&what){ viol("op-"+opname,opname+": "+what); }
  bool ok(bool c,const string&what){ cnt("comparisons"); if(!c) fail(what); return c; }
  bool nul(DdNode*p,bool mayNull=false){ cnt("op_"+opname); if(!p){ if(!mayNull) fail(S("no result, error code %d",(int)Cudd_ReadErrorCode(m))); else cnt("limited_results"); Cudd_ClearErrorCode(m); return true; } return false; }
  void canonB(DdNode*p,const TT&t){ for(auto&x:bp){ cnt("canonicity_pairs"); if((x.f.p==p)!=(x.t==t)) { fail(x.f.p==p?"the same node for different functions":"different nodes for the same function"); return; } } }
  void pushB(const B&f,const TT&t){ canonB(f,t); if(bp.size()>=14) bp[n<3?r(14):1+n+r(13-n)]={f,t}; else bp.push_back({f,t}); }
  bool resB(DdNode*p,const TT&e,bool mayNull=false){ if(nul(p,mayNull)) return false; B f(this,p); TT t=tt(p); if(!ok(t==e,"wrong function "+show(t)+" instead of "+show(e))) return false; if(t.any()&&!t.all()) cnt("non_constant_results"); pushB(f,t); return true; }
  // result given by a property; pushed too
  template<class F> void propB(DdNode*p,F f,const char*what,bool mayNull=false){ if(nul(p,mayNull)) return; B h(this,p); TT t=tt(p); if(ok(f(t),S("%s; result %s",what,show(t).c_str()))) pushB(h,t); }
  static bool same(double a,double b){ return a==b||fabs(a-b)<=1e-9*max(1.0,max(fabs(a),fabs(b)))||(a!=a&&b!=b); }
  static bool sameA(const AT&a,const AT&b){ for(int i=0;i<256;i++) if(!same(a[i],b[i])) return false; return true; }
  void canonA(DdNode*p,const AT&t){ for(auto&x:ap){ cnt("canonicity_pairs"); bool e=x.t==t; if((x.f.p==p)!=e){ fail("ADD nodes and functions do not correspond one to one"); return; } } }
  void pushA(const B&f,const AT&t){ for(double v:t) if(!(fabs(v)<=4096)||v*8!=floor(v*8)) return; canonA(f,t); if(ap.size()>=10) ap[r(10)]={f,t}; else ap.push_back({f,t}); }
  bool resA(DdNode*p,const AT&e){ if(nul(p)) return false; B f(this,p); AT t=at(p); int k=0; while(k<256&&same(t[k],e[k])) k++; if(!ok(k==256,k<256?S("wrong function: %g instead of %g at %d",t[k],e[k],k):"")) return false; pushA(f,t); return true; }
  void canonZ(DdNode*p,const TT&t){ for(auto&x:zp){ cnt("canonicity_pairs"); if((x.f.p==p)!=(x.t==t)){ fail("ZDD nodes and families do not correspond one to one"); return; } } }
  void pushZ(const Z&f,const TT&t){ canonZ(f,t); if(zp.size()>=12) zp[r(12)]={f,t}; else zp.push_back({f,t}); }
  bool resZ(DdNode*p,const TT&e,bool push=true){ if(nul(p)) return false; Z f(this,p); TT t=zt(p); if(!ok(t==e,"wrong family "+show(t)+" instead of "+show(e))) return false; if(push) pushZ(f,t); return true; }
  // ---- operands
  int mask(){ int x=0; double p=.15+.2*r(4); for(int i=0;i<n;i++) if(r.p(p)) x|=1<<i; return x; }
  B cubeOf(int mk){ B c=own(Cudd_ReadOne(m)); for(int i=0;i<n;i++) if(mk>>i&1) c=own(Cudd_bddAnd(m,c,Cudd_bddIthVar(m,i))); return c; }
  PB lit(){ vector<int> l(N,2); B c=own(Cudd_ReadOne(m)); double p=.2+.2*r(4); for(int i=0;i<n;i++) if(r.p(p)){ l[i]=r(2); DdNode*v=Cudd_bddIthVar(m,i); c=own(Cudd_bddAnd(m,c,l[i]?v:Cudd_Not(v))); } return {c,litcube(l)}; }
  PB X(){ PB a=bp[r(bp.size())]; if(r(3)==0){ a.f=own(Cudd_Not(a.f.p)); a.t=~a.t; } return a; }
  PB nz_(){ for(int i=0;i<20;i++){ PB a=X(); if(a.t.any()) return a; } return {own(Cudd_ReadOne(m)),ALL}; }
  PB rnd(){ TT t; int st=r(3); for(int i=0;i<256;i++){ int k=i&((1<<n)-1); if(k==i) t[i]=st==0?r(2):st==1?!r(5):r(5)>0; else t[i]=t[k]; } return {mk(t),t}; }
  B mk(const TT&t){ map<pair<int,string>,B> memo; function<B(int,TT)> go=[&](int i,TT u)->B{ if(u.none()) return own(Cudd_ReadLogicZero(m)); if(u.all()) return own(Cudd_ReadOne(m)); B a=go(i+1,cof(u,i,1)),b=go(i+1,cof(u,i,0)); return own(Cudd_bddIte(m,Cudd_bddIthVar(m,i),a,b)); }; return go(0,t); }
  void vars(vector<DdNode*>&x,int mk){ for(int i=0;i<n;i++) if(mk>>i&1) x.push_back(Cudd_bddIthVar(m,i)); }
  // ---- creation and the end
  void start(){ n=1+r(7); if(r(3)) n=max(n,4); zmult=1+r(2); unsigned slots=r(2)?CUDD_UNIQUE_SLOTS:2+r(20),cache=r(2)?CUDD_CACHE_SLOTS:1+r(64); nz=0; m=Cudd_Init(n,0,slots,cache,0); if(!m){ viol("init","no manager"); return; }
    if(zmult==2&&n>4) zmult=1; if(!Cudd_zddVarsFromBddVars(m,zmult)) viol("zdd-vars","failed"); nz=n*zmult; if(stress&&r(2)) Cudd_SetMaxCacheHard(m,1+r(2000)); if(r(3)==0) Cudd_SetMinHit(m,r(100)); 
    if(stress){ autodyn=r(2); if(autodyn){ Cudd_AutodynEnable(m,meth()); Cudd_SetNextReordering(m,1+r(60)); if(r(2)) Cudd_AutodynEnableZdd(m,zmeth()); } if(r(4)==0) groups(); if(r(3)==0) Cudd_TurnOffCountDead(m); if(r(4)==0) Cudd_zddRealignEnable(m); if(r(6)==0) Cudd_DisableGarbageCollection(m); if(r(5)==0) Cudd_SetSiftMaxVar(m,1+r(4)); if(r(5)==0) Cudd_SetSiftMaxSwap(m,1+r(100)); if(r(5)==0) Cudd_SetMaxGrowth(m,1.0+r(10)/10.0); if(r(6)==0) Cudd_SetLooseUpTo(m,r(1000)); if(r(6)==0) Cudd_SetMaxReorderings(m,r(50)); }
    for(int i=0;i<n;i++) bp.push_back({own(Cudd_bddIthVar(m,i)),V[i]}); bp.push_back({own(Cudd_ReadOne(m)),ALL}); for(int i=0;i<3;i++) bp.push_back(rnd());
    for(int i=0;i<4;i++) ap.push_back(rndA()); for(int i=0;i<4;i++) zp.push_back(rndZ()); }
  int zmult;
  void groups(){ int lo=r(n),sz=1+r(n-lo); int ty=r(3)==0?MTR_FIXED:MTR_DEFAULT; if(Cudd_MakeTreeNode(m,Cudd_ReadInvPerm(m,lo),sz,ty)) cnt("variable_groups"); grp=groupSets(); }
  Cudd_ReorderingType meth(){ static const Cudd_ReorderingType t[]={CUDD_REORDER_RANDOM,CUDD_REORDER_RANDOM_PIVOT,CUDD_REORDER_SIFT,CUDD_REORDER_SIFT_CONVERGE,CUDD_REORDER_SYMM_SIFT,CUDD_REORDER_SYMM_SIFT_CONV,CUDD_REORDER_WINDOW2,CUDD_REORDER_WINDOW3,CUDD_REORDER_WINDOW4,CUDD_REORDER_WINDOW2_CONV,CUDD_REORDER_WINDOW3_CONV,CUDD_REORDER_WINDOW4_CONV,CUDD_REORDER_GROUP_SIFT,CUDD_REORDER_GROUP_SIFT_CONV,CUDD_REORDER_ANNEALING,CUDD_REORDER_GENETIC,CUDD_REORDER_LAZY_SIFT,CUDD_REORDER_EXACT}; int k=r(18); if(k>=14&&k<=15&&r(3)) k=2; return t[k]; }
  Cudd_ReorderingType zmeth(){ static const Cudd_ReorderingType t[]={CUDD_REORDER_RANDOM,CUDD_REORDER_RANDOM_PIVOT,CUDD_REORDER_SIFT,CUDD_REORDER_SIFT_CONVERGE,CUDD_REORDER_SYMM_SIFT,CUDD_REORDER_SYMM_SIFT_CONV}; return t[r(6)]; }
  // the variable groups and the variables in them
  multiset<set<int>> grp;
  multiset<set<int>> groupSets(){ multiset<set<int>> g; function<void(MtrNode*,int,int)> go=[&](MtrNode*t,int lo,int hi){ for(;t;t=t->younger){ if((int)t->low<lo||(int)(t->low+t->size)>hi||!t->size){ br(S("group tree node at levels %u to %u, not within %d to %d",t->low,t->low+t->size-1,lo,hi-1)); return; } set<int> v; for(unsigned i=t->low;i<t->low+t->size;i++) v.insert(Cudd_ReadInvPerm(m,i)); g.insert(v); go(t->child,t->low,t->low+t->size); lo=t->low+t->size; } }; if(Cudd_ReadTree(m)) go(Cudd_ReadTree(m),0,n); return g; }
  void checkGroups(){ cnt("group_checks"); auto g=groupSets(); if(!broken) ok(g==grp,"the variable groups do not consist of the variables they were made for"); }
  // every live diagram must still denote what it did
  void recheck(const char*why){ opname=why; checkGroups(); if(broken) return; for(auto&x:bp) if(!ok(tt(x.f)==x.t,"a live BDD has changed")) return; for(auto&x:ap){ AT t=at(x.f); int k=0; while(k<256&&t[k]==x.t[k]) k++; if(!ok(k==256,k<256?S("a live ADD has changed: %g instead of %g",t[k],x.t[k]):"")) return; } for(auto&x:zp) if(!ok(zt(x.f)==x.t,"a live ZDD has changed")) return; for(size_t i=0;i<bp.size();i++) for(size_t j=0;j<i;j++) if(!ok((bp[i].f.p==bp[j].f.p)==(bp[i].t==bp[j].t),"nodes and functions do not correspond one to one")) return; cnt("full_rechecks"); vector<int> inv(n,0); for(int i=0;i<n;i++){ int l=Cudd_ReadPerm(m,i); if(!ok(l>=0&&l<n&&!inv[l]++&&Cudd_ReadInvPerm(m,l)==i,"the variable order is not a permutation")) return; } }
  void debug(const char*why){ opname=why; FILE*o=Cudd_ReadStdout(m),*e=Cudd_ReadStderr(m); static FILE*nl=fopen("/dev/null","w"); if(!getenv("CUDD_FUZZ_TALK")) { Cudd_SetStdout(m,nl); Cudd_SetStderr(m,nl); } int a=Cudd_DebugCheck(m),b=Cudd_CheckKeys(m); Cudd_SetStdout(m,o); Cudd_SetStderr(m,e); cnt("table_checks"); ok(a==0,S("Cudd_DebugCheck reports %d",a)); ok(b==0,S("Cudd_CheckKeys reports %d",b)); }
  void disturb(){ char b[80]; switch(r(12)){
    case 0: case 1: case 2: { auto t=meth(); sprintf(b,"ReduceHeap-%d",(int)t); opname=b; cnt(string("reorder_")+b); if(!ok(Cudd_ReduceHeap(m,t,0),"reordering failed")) return; recheck(b); break; }
    case 3: { vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); opname="ShuffleHeap"; bool had=Cudd_ReadTree(m)!=nullptr; int k=Cudd_ShuffleHeap(m,p.data()); if(!had){ if(!ok(k,"shuffling failed")) return; for(int i=0;i<n;i++) if(!ok(Cudd_ReadInvPerm(m,i)==p[i],"order after shuffling differs from the one requested")) return; } cnt("shuffles"); recheck("ShuffleHeap"); break; }
    case 4: { auto t=zmeth(); sprintf(b,"zddReduceHeap-%d",(int)t); opname=b; if(!ok(Cudd_zddReduceHeap(m,t,0),"reordering failed")) return; cnt("zdd_reorderings"); recheck(b); break; }
    case 5: { vector<int> p(nz); for(int i=0;i<nz;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); opname="zddShuffleHeap"; if(Cudd_ReadZddTree(m)) break; if(!ok(Cudd_zddShuffleHeap(m,p.data()),"shuffling failed")) return; for(int i=0;i<nz;i++) if(!ok(Cudd_ReadInvPermZdd(m,i)==p[i],"order after shuffling differs from the one requested")) return; recheck("zddShuffleHeap"); break; }
    case 6: debug("table"); alive(); break;
    case 7: if(r(2)) Cudd_SetNextReordering(m,Cudd_ReadKeys(m)-Cudd_ReadDead(m)+r(20)); else { Cudd_AutodynDisable(m); Cudd_AutodynDisableZdd(m); if(r(2)){ Cudd_AutodynEnable(m,meth()); Cudd_SetNextReordering(m,1); cnt("automatic_reordering_on"); } } break;
    case 8: if(n<N-1&&zmult==1&&!Cudd_ReadTree(m)&&!Cudd_zddRealignmentEnabled(m)){ opname="NewVarAtLevel"; int l=r(n+1); DdNode*v=r(3)?Cudd_bddNewVarAtLevel(m,l):Cudd_addNewVarAtLevel(m,l); if(nul(v)) return; B vown=own(v); if(Cudd_IsComplement(v)||(int)Cudd_NodeReadIndex(v)!=n){ fail("index of the new variable"); return; } n++; ok(autodyn||Cudd_ReadPerm(m,n-1)==l,"level of the new variable"); if(!ok(Cudd_zddVarsFromBddVars(m,1),"no ZDD variables")) return; nz=Cudd_ReadZddSize(m); ok(Cudd_ReadSize(m)==n,"number of variables"); cnt("new_variables"); B vv=own(Cudd_bddIthVar(m,n-1)); if(bp.size()>3) bp[r(bp.size())]={vv,V[n-1]}; recheck("NewVarAtLevel"); nz=n; } break;
    case 9: { // garbage: make many dead nodes, then collect by an operation that needs the space
      for(int i=0;i<20;i++){ PB a=rnd(); B c=own(Cudd_bddXor(m,a.f,X().f)); } Cudd_SetLooseUpTo(m,0); if(r(2)) Cudd_EnableGarbageCollection(m); else if(r(4)==0) Cudd_DisableGarbageCollection(m); recheck("garbage"); cnt("garbage_bursts"); break; }
    case 10: if(r(2)){ Cudd_FreeTree(m); grp.clear(); } else if(r(3)==0) groups(); if(r(3)==0&&zmult==1) Cudd_FreeZddTree(m); break;
    case 11: { opname="bind"; int v=r(n); if(r(2)) Cudd_bddBindVar(m,v); else Cudd_bddUnbindVar(m,v); break; } } cnt("disturbances"); Cudd_ReorderingType q; autodyn=Cudd_ReorderingStatus(m,&q)||Cudd_ReorderingStatusZdd(m,&q); }
  void end(){ if(stress||r(4)==0){ recheck("end"); debug("end"); alive(); } bp.clear(); ap.clear(); zp.clear(); opname="CheckZeroRef"; static FILE*nl=fopen("/dev/null","w"); if(!getenv("CUDD_FUZZ_TALK")) { Cudd_SetStdout(m,nl); Cudd_SetStderr(m,nl); } Cudd_AutodynDisable(m); Cudd_AutodynDisableZdd(m); int k=Cudd_CheckZeroRef(m); ok(k==0,S("%d nodes keep references after everything was released",k)); cnt("managers_closed"); if(Cudd_ReadReorderings(m)) cnt("reorderings",Cudd_ReadReorderings(m)); cnt("garbage_collections",Cudd_ReadGarbageCollections(m)); Cudd_Quit(m); }
  // ---- BDD operations
  void bddop();
  void addop();
  void zddop();
  PA rndA(){ int st=r(4); AT t; static const double vals[]={0,1,2,3,-1,-2,.5,4,7}; int k=2+r(7); for(int i=0;i<256;i++){ int q=i&((1<<n)-1); t[i]=q==i?(st==0?r(2):vals[r(k)]):t[q]; } return {mkA(t),t}; }
  B mkA(const AT&t){ function<B(int,int)> go=[&](int i,int base)->B{ if(i==n) return own(Cudd_addConst(m,t[base])); B a=go(i+1,base|1<<i),b=go(i+1,base); B v=own(Cudd_addIthVar(m,i)); return own(Cudd_addIte(m,v,a,b)); }; return go(0,0); }
  PZ rndZ(){ TT t; int k=r(12); for(int i=0;i<k;i++) t[r(1<<nz)]=1; return {mkZ(t),t}; }
  Z mkZ(const TT&t){ Z a(this,Cudd_ReadZero(m)); for(int s=0;s<(1<<nz);s++) if(t[s]){ Z e(this,Cudd_ReadOne(m)); for(int i=0;i<nz;i++) if(s>>i&1) e=Z(this,Cudd_zddChange(m,e,i)); a=Z(this,Cudd_zddUnion(m,a,e)); } return a; }
  PA XA(){ return ap[r(ap.size())]; }
  PA A01(){ PB b=X(); AT t; for(int i=0;i<256;i++) t[i]=b.t[i]; return {own(Cudd_BddToAdd(m,b.f)),t}; }
  template<class F> AT map2(const AT&a,const AT&b,F f){ AT c; for(int i=0;i<256;i++) c[i]=f(a[i],b[i]); return c; }
};
#define OP(name) opname=name
static int dagsize(DdNode*f){ set<DdNode*> s; function<void(DdNode*)> go=[&](DdNode*x){ x=Cudd_Regular(x); if(!s.insert(x).second) return; if(!Cudd_IsConstant(x)){ go(Cudd_T(x)); go(Cudd_E(x)); } }; go(f); return s.size(); }
static double val(const AT&,int);
void W::bddop(){ PB a=X(),b=X(),c=X(); int mk_=mask(); switch(r(86)){
  case 0: OP("And"); resB(Cudd_bddAnd(m,a.f,b.f),a.t&b.t); break;
  case 1: OP("Or"); resB(Cudd_bddOr(m,a.f,b.f),a.t|b.t); break;
  case 2: OP("Nand"); resB(Cudd_bddNand(m,a.f,b.f),~(a.t&b.t)); break;
  case 3: OP("Nor"); resB(Cudd_bddNor(m,a.f,b.f),~(a.t|b.t)); break;
  case 4: OP("Xor"); resB(Cudd_bddXor(m,a.f,b.f),a.t^b.t); break;
  case 5: OP("Xnor"); resB(Cudd_bddXnor(m,a.f,b.f),~(a.t^b.t)); break;
  case 6: case 7: OP("Ite"); resB(Cudd_bddIte(m,a.f,b.f,c.f),ite(a.t,b.t,c.t)); break;
  case 8: { OP("IteConstant"); TT e=ite(a.t,b.t,c.t); DdNode*q=Cudd_bddIteConstant(m,a.f,b.f,c.f); cnt("op_IteConstant"); ok(q&&(q==DD_NON_CONSTANT?e.any()&&!e.all():tt(q)==e),"wrong answer"); break; }
  case 9: { unsigned l=r(30); switch(r(4)){ case 0: OP("AndLimit"); resB(Cudd_bddAndLimit(m,a.f,b.f,l),a.t&b.t,true); break; case 1: OP("OrLimit"); resB(Cudd_bddOrLimit(m,a.f,b.f,l),a.t|b.t,true); break; case 2: OP("XnorLimit"); resB(Cudd_bddXnorLimit(m,a.f,b.f,l),~(a.t^b.t),true); break; case 3: OP("IteLimit"); resB(Cudd_bddIteLimit(m,a.f,b.f,c.f,l),ite(a.t,b.t,c.t),true); break; } break; }
  case 10: case 11: { B q=cubeOf(mk_); OP("ExistAbstract"); resB(Cudd_bddExistAbstract(m,a.f,q),ex(a.t,mk_)); break; }
  case 12: { B q=cubeOf(mk_); OP("UnivAbstract"); resB(Cudd_bddUnivAbstract(m,a.f,q),un(a.t,mk_)); break; }
  case 13: case 14: case 15: { B q=cubeOf(mk_); OP("AndAbstract"); resB(Cudd_bddAndAbstract(m,a.f,b.f,q),ex(a.t&b.t,mk_)); break; }
  case 16: { B q=cubeOf(mk_); OP("XorExistAbstract"); resB(Cudd_bddXorExistAbstract(m,a.f,b.f,q),ex(a.t^b.t,mk_)); break; }
  case 17: { B q=cubeOf(mk_); unsigned l=r(30); switch(r(3)){ case 0: OP("ExistAbstractLimit"); resB(Cudd_bddExistAbstractLimit(m,a.f,q,l),ex(a.t,mk_),true); break; case 1: OP("UnivAbstractLimit"); resB(Cudd_bddUnivAbstractLimit(m,a.f,q,l),un(a.t,mk_),true); break; case 2: OP("AndAbstractLimit"); resB(Cudd_bddAndAbstractLimit(m,a.f,b.f,q,l),ex(a.t&b.t,mk_),true); } break; }
  case 18: { int i=r(n); OP("BooleanDiff"); resB(Cudd_bddBooleanDiff(m,a.f,i),cof(a.t,i,0)^cof(a.t,i,1)); break; }
  case 19: { int i=r(n); OP("VarIsDependent"); cnt("op_VarIsDependent"); ok(Cudd_bddVarIsDependent(m,a.f,Cudd_bddIthVar(m,i))==(cof(a.t,i,0)&cof(a.t,i,1)).none(),"wrong answer"); break; }
  case 20: case 21: { PB q=lit(); vector<int> l; iscube(q.t,&l); TT t=a.t; for(int i=0;i<N;i++) if(l[i]!=2) t=cof(t,i,l[i]); OP("Cofactor"); resB(Cudd_Cofactor(m,a.f,q.f),t); break; }
  case 22: if(b.t.any()){ OP("Constrain"); propB(Cudd_bddConstrain(m,a.f,b.f),[&](const TT&t){ return ((t^a.t)&b.t).none(); },"disagrees on the care set"); } break;
  case 23: if(b.t.any()){ OP("Restrict"); propB(Cudd_bddRestrict(m,a.f,b.f),[&](const TT&t){ return ((t^a.t)&b.t).none()&&!(sup(t)&~sup(a.t)); },"disagrees on the care set or adds variables"); } break;
  case 24: if(b.t.any()){ OP("NPAnd"); propB(Cudd_bddNPAnd(m,a.f,b.f),[&](const TT&t){ return ((t^a.t)&b.t).none(); },"disagrees on the care set"); } break;
  case 25: if(b.t.any()){ OP("LICompaction"); propB(Cudd_bddLICompaction(m,a.f,b.f),[&](const TT&t){ return ((t^a.t)&b.t).none(); },"disagrees on the care set"); } break;
  case 26: if(b.t.any()){ OP("Minimize"); propB(Cudd_bddMinimize(m,a.f,b.f),[&](const TT&t){ return ((t^a.t)&b.t).none(); },"disagrees on the care set"); } break;
  case 27: case 28: { B l=own(Cudd_bddAnd(m,a.f,b.f)),u=own(Cudd_bddOr(m,a.f,c.f)); TT lt=a.t&b.t,ut=a.t|c.t; auto in=[&](const TT&t){ return leq(lt,t)&&leq(t,ut); }; switch(r(4)){ case 0: OP("Squeeze"); propB(Cudd_bddSqueeze(m,l,u),in,"outside of the interval"); break; case 1: OP("Interpolate"); propB(Cudd_bddInterpolate(m,l,u),[&](const TT&t){ return in(t)&&!(sup(t)&~(sup(lt)&sup(ut))); },"no interpolant"); break; case 2: OP("Isop"); propB(Cudd_bddIsop(m,l,u),in,"outside of the interval"); break;
      case 3: { OP("ForeachPrime"); int*q; TT t; DdGen*g; cnt("op_ForeachPrime"); if(autodyn) break; bool good=true; Cudd_ForeachPrime(m,l,u,g,q){ TT k=litcube([&]{ vector<int> v(N,2); for(int i=0;i<n;i++) v[i]=q[i]; return v; }()); if(!leq(k,ut)) good=false; t|=k; } ok(good&&in(t),"primes do not cover the interval"); break; } } break; }
  case 29: case 30: { int v=r(n); OP("Compose"); resB(Cudd_bddCompose(m,a.f,b.f,v),ite(b.t,cof(a.t,v,1),cof(a.t,v,0))); break; }
  case 31: case 32: { vector<PB> g; vector<DdNode*> q; for(int i=0;i<n;i++){ if(r(2)) g.push_back({own(Cudd_bddIthVar(m,i)),V[i]}); else g.push_back(X()); q.push_back(g[i].f.p); } TT e; for(int k=0;k<256;k++){ int j=k&~((1<<n)-1); for(int i=0;i<n;i++) if(g[i].t[k]) j|=1<<i; e[k]=a.t[j]; } OP("VectorCompose"); resB(Cudd_bddVectorCompose(m,a.f,q.data()),e); break; }
  case 33: case 34: case 35: { vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; if(r(5)) shuffle(p.begin(),p.end(),r.g); else for(int&i:p) i=r(n); TT e; for(int k=0;k<256;k++){ int j=k&~((1<<n)-1); for(int i=0;i<n;i++) if(k>>p[i]&1) j|=1<<i; e[k]=a.t[j]; } OP("Permute"); resB(Cudd_bddPermute(m,a.f,p.data()),e); break; }
  case 36: case 37: if(n>=2){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); int k=1+r(n/2); vector<DdNode*> x,y; vector<int> to(n); for(int i=0;i<n;i++) to[i]=i; for(int i=0;i<k;i++){ x.push_back(Cudd_bddIthVar(m,p[2*i])); y.push_back(Cudd_bddIthVar(m,p[2*i+1])); swap(to[p[2*i]],to[p[2*i+1]]); } TT e; for(int q=0;q<256;q++){ int j=q&~((1<<n)-1); for(int i=0;i<n;i++) if(q>>to[i]&1) j|=1<<i; e[q]=a.t[j]; }
      if(r(2)){ OP("SwapVariables"); resB(Cudd_bddSwapVariables(m,a.f,x.data(),y.data(),k),e); } else { OP("VarMap"); if(!ok(Cudd_SetVarMap(m,x.data(),y.data(),k),"SetVarMap failed")) break; resB(Cudd_bddVarMap(m,a.f),e); resB(Cudd_bddVarMap(m,own(Cudd_bddVarMap(m,a.f))),a.t); } } break;
  case 38: { OP("Leq"); cnt("op_Leq"); ok(Cudd_bddLeq(m,a.f,b.f)==leq(a.t,b.t),"wrong answer"); B x=own(Cudd_bddAnd(m,a.f,b.f)); ok(Cudd_bddLeq(m,x,b.f)==1,"wrong answer"); break; }
  case 39: { OP("LeqUnless"); cnt("op_LeqUnless"); ok(Cudd_bddLeqUnless(m,a.f,b.f,c.f)==leq(a.t&~c.t,b.t),"wrong answer"); OP("EquivDC"); ok(Cudd_EquivDC(m,a.f,b.f,c.f)==((a.t^b.t)&~c.t).none(),"wrong answer"); B q=own(Cudd_bddIte(m,c.f,b.f,a.f)); ok(Cudd_EquivDC(m,a.f,q,c.f)==1,"equivalent functions not recognised"); break; }
  case 40: { OP("Intersect"); propB(Cudd_bddIntersect(m,a.f,b.f),[&](const TT&t){ return leq(t,a.t&b.t)&&t.any()==(a.t&b.t).any(); },"not a witness"); break; }
  case 41: { PB p=lit(),q=lit(); vector<int> l,k; iscube(p.t,&l); iscube(q.t,&k); for(int i=0;i<N;i++) if(l[i]!=k[i]) l[i]=2; OP("LiteralSetIntersection"); resB(Cudd_bddLiteralSetIntersection(m,p.f,q.f),litcube(l)); break; }
  case 42: { int d=r(n+2),dir=r(2); OP("ClippingAnd"); TT e=a.t&b.t; propB(Cudd_bddClippingAnd(m,a.f,b.f,d,dir),[&](const TT&t){ return dir?leq(e,t):leq(t,e); },"approximation in the wrong direction",true); break; }
  case 43: { int d=r(n+2),dir=r(2); B q=cubeOf(mk_); OP("ClippingAndAbstract"); TT e=ex(a.t&b.t,mk_); propB(Cudd_bddClippingAndAbstract(m,a.f,b.f,q,d,dir),[&](const TT&t){ return dir?leq(e,t):leq(t,e); },"approximation in the wrong direction",true); break; }
  case 44: case 45: case 46: { int th=r(12),w=r(12); double q=.5+r(10)/5.0; int nv=r(2)?n:0; auto le=[&](const TT&t){ return leq(t,a.t); }; auto ge=[&](const TT&t){ return leq(a.t,t); }; const char*u="approximation not below the function",*o="approximation not above the function"; if(a.t.none()||a.t.all()) break; switch(w){
      case 0: OP("UnderApprox"); propB(Cudd_UnderApprox(m,a.f,nv,th,r(2),q),le,u); break; case 1: OP("OverApprox"); propB(Cudd_OverApprox(m,a.f,nv,th,r(2),q),ge,o); break;
      case 2: OP("RemapUnderApprox"); propB(Cudd_RemapUnderApprox(m,a.f,nv,th,q),le,u); break; case 3: OP("RemapOverApprox"); propB(Cudd_RemapOverApprox(m,a.f,nv,th,q),ge,o); break;
      case 4: OP("BiasedUnderApprox"); propB(Cudd_BiasedUnderApprox(m,a.f,b.f,nv,th,q,q),le,u); break; case 5: OP("BiasedOverApprox"); propB(Cudd_BiasedOverApprox(m,a.f,b.f,nv,th,q,q),ge,o); break;
      case 6: OP("SubsetHeavyBranch"); propB(Cudd_SubsetHeavyBranch(m,a.f,n,th),le,u); break; case 7: OP("SupersetHeavyBranch"); propB(Cudd_SupersetHeavyBranch(m,a.f,n,th),ge,o); break;
      case 8: OP("SubsetShortPaths"); propB(Cudd_SubsetShortPaths(m,a.f,n,th,r(2)),le,u,true); break; case 9: OP("SupersetShortPaths"); propB(Cudd_SupersetShortPaths(m,a.f,n,th,r(2)),ge,o,true); break;
      case 10: OP("SubsetCompress"); propB(Cudd_SubsetCompress(m,a.f,n,th),le,u,true); break; case 11: OP("SupersetCompress"); propB(Cudd_SupersetCompress(m,a.f,n,th),ge,o,true); break; } break; }
  case 47: { OP("CountMinterm"); cnt("op_CountMinterm"); double e=a.t.count(); ok(Cudd_CountMinterm(m,a.f,N)==e,"wrong count"); ok((double)Cudd_LdblCountMinterm(m,a.f,N)==e,"wrong long double count"); EpDouble*ep=EpdAlloc(); Cudd_EpdCountMinterm(m,a.f,N,ep); double mv; int xv; EpdGetValueAndDecimalExponent(ep,&mv,&xv); ok(fabs(mv*pow(10.0,xv)-e)<1e-6,"wrong extended double count"); EpdFree(ep); int dg; DdApaNumber q=Cudd_ApaCountMinterm(m,a.f,N,&dg); char*s=Cudd_ApaStringDecimal(dg,q); ok(s&&atof(s)==e,S("wrong arbitrary precision count %s instead of %g",s?s:"null",e)); if(s) free(s); FREE(q); ok(fabs(Cudd_Density(m,a.f,N)-e/dagsize(a.f))<1e-9,"wrong density"); break; }
  case 48: { OP("DagSize"); cnt("op_DagSize"); ok(Cudd_DagSize(a.f)==dagsize(a.f),"wrong size"); DdNode*q[3]={a.f,b.f,c.f}; set<DdNode*> s; function<void(DdNode*)> go=[&](DdNode*x){ x=Cudd_Regular(x); if(!s.insert(x).second) return; if(!Cudd_IsConstant(x)){ go(Cudd_T(x)); go(Cudd_E(x)); } }; for(auto x:q) go(x); ok(Cudd_SharingSize(q,3)==(int)s.size(),"wrong shared size"); if(!autodyn){ set<DdNode*> v; DdGen*g; DdNode*x; Cudd_ForeachNode(m,a.f,g,x){ v.insert(Cudd_Regular(x)); } ok((int)v.size()==dagsize(a.f),"node iteration incomplete"); } break; }
  case 49: { OP("Support"); int e=sup(a.t); resB(Cudd_Support(m,a.f),[&]{ TT t=ALL; for(int i=0;i<N;i++) if(e>>i&1) t&=V[i]; return t; }()); ok(Cudd_SupportSize(m,a.f)==__builtin_popcount(e),"wrong support size"); int*q=Cudd_SupportIndex(m,a.f); if(ok(q,"no support index")){ int g=0; for(int i=0;i<n;i++) g|=q[i]<<i; ok(g==e,"wrong support"); FREE(q); } int*ix; int k=Cudd_SupportIndices(m,a.f,&ix); int g=0; for(int i=0;i<k;i++) g|=1<<ix[i]; ok(g==e,"wrong support indices"); if(ix) FREE(ix);
      DdNode*F[3]={a.f,b.f,c.f}; int e3=sup(a.t)|sup(b.t)|sup(c.t); ok(Cudd_VectorSupportSize(m,F,3)==__builtin_popcount(e3),"wrong vector support size"); B vs=own(Cudd_VectorSupport(m,F,3)); ok(vs.p&&sup(tt(vs))==e3,"wrong vector support"); k=Cudd_VectorSupportIndices(m,F,3,&ix); g=0; for(int i=0;i<k;i++) g|=1<<ix[i]; ok(g==e3,"wrong vector support indices"); if(ix) FREE(ix);
      DdNode*x,*y,*z; if(ok(Cudd_ClassifySupport(m,a.f,b.f,&x,&y,&z),"ClassifySupport failed")){ int sa=sup(a.t),sb=sup(b.t); ok(sup(tt(x))==(sa&sb)&&sup(tt(y))==(sa&~sb)&&sup(tt(z))==(sb&~sa),"wrong classification of the support"); for(DdNode*q:{x,y,z}){ Cudd_Ref(q); Cudd_RecursiveDeref(m,q); } } break; }
  case 50: { OP("Eval"); int in[N]; cnt("op_Eval"); for(int k=0;k<16;k++){ int q=r(1<<n); for(int i=0;i<N;i++) in[i]=q>>i&1; DdNode*x=Cudd_Eval(m,a.f,in); ok(x==(a.t[q]?Cudd_ReadOne(m):Cudd_ReadLogicZero(m)),"wrong value"); } break; }
  case 51: { OP("PickOneCube"); if(a.t.none()||a.t.all()) break; char s[N+1]; if(ok(Cudd_bddPickOneCube(m,a.f,s),"failed")){ vector<int> l(N,2); for(int i=0;i<n;i++) l[i]=s[i]; ok(leq(litcube(l),a.t),"cube outside of the function"); } cnt("op_PickOneCube"); break; }
  case 52: if(a.t.any()){ OP("PickOneMinterm"); vector<DdNode*> x; int e=sup(a.t)|mk_; if(!e) break; vars(x,e); propB(Cudd_bddPickOneMinterm(m,a.f,x.data(),x.size()),[&](const TT&t){ vector<int> l; return leq(t,a.t)&&iscube(t,&l)&&sup(t)==e; },"not a minterm of the function"); } break;
  case 53: if(a.t.any()){ OP("PickArbitraryMinterms"); vector<DdNode*> x; int e=(1<<n)-1; vars(x,e); int tot=a.t.count()>>(N-n),k=1+r(min(tot,6)); DdNode**q=Cudd_bddPickArbitraryMinterms(m,a.f,x.data(),n,k); cnt("op_PickArbitraryMinterms"); if(ok(q,"no result")){ set<string> s; for(int i=0;i<k;i++){ TT t=tt(q[i]); s.insert(show(t)); ok(leq(t,a.t)&&(int)t.count()==(1<<(N-n)),"not a minterm of the function"); } ok((int)s.size()==k,"the minterms are not distinct"); for(int i=0;i<k;i++) Cudd_Ref(q[i]); for(int i=0;i<k;i++) Cudd_RecursiveDeref(m,q[i]); FREE(q); } } break;
  case 54: { OP("SubsetWithMaskVars"); if(a.t.none()) break; vector<DdNode*> x,y; vars(x,(1<<n)-1); vars(y,mk_); if(y.empty()) break; propB(Cudd_SubsetWithMaskVars(m,a.f,x.data(),n,y.data(),y.size()),[&](const TT&t){ return leq(t,a.t)&&t.any(); },"not a non-empty subset"); break; }
  case 55: { OP("ForeachCube"); if(autodyn) break; cnt("op_ForeachCube"); TT t; DdGen*g; int*q; CUDD_VALUE_TYPE v; long k=0; bool dis=true; Cudd_ForeachCube(m,a.f,g,q,v){ vector<int> l(N,2); for(int i=0;i<n;i++) l[i]=q[i]; TT c=litcube(l); if((t&c).any()) dis=false; t|=c; k++; } ok(dis,"cubes overlap"); ok(t==a.t,"cubes do not add up to the function"); ok(Cudd_CountPathsToNonZero(a.f)==k,"wrong number of paths to non-zero"); long k2=0; Cudd_ForeachCube(m,Cudd_Not(a.f.p),g,q,v){ k2++; } ok(Cudd_CountPath(a.f)==k+k2,"wrong number of paths"); break; }
  case 56: { OP("CubeArray"); PB q=lit(); int arr[N]; cnt("op_CubeArray"); vector<int> l; iscube(q.t,&l); ok(Cudd_CheckCube(m,q.f),"cube not recognised"); ok(Cudd_CheckCube(m,a.f)==iscube(a.t),"CheckCube wrong"); if(q.t.all()) break; if(ok(Cudd_BddToCubeArray(m,q.f,arr),"failed")) for(int i=0;i<n;i++) ok(arr[i]==l[i],"wrong literal"); ok(own(Cudd_CubeArrayToBdd(m,arr)).p==q.f.p,"not inverse"); vector<DdNode*> x; vector<int> ph; for(int i=0;i<n;i++) if(l[i]!=2){ x.push_back(Cudd_bddIthVar(m,i)); ph.push_back(l[i]); } OP("ComputeCube"); resB(Cudd_bddComputeCube(m,x.data(),ph.data(),x.size()),q.t); vector<int> ix; TT e=ALL; for(int i=0;i<n;i++) if(mk_>>i&1){ ix.push_back(i); e&=V[i]; } OP("IndicesToCube"); resB(Cudd_IndicesToCube(m,ix.data(),ix.size()),e); break; }
  case 57: if(a.t.any()){ OP("ShortestPath"); int w[N],sp[N],len; for(int i=0;i<N;i++) w[i]=r(5); int best=1<<20; for(int k=0;k<(1<<n);k++) if(a.t[k]){ int s=0; for(int i=0;i<n;i++) if(k>>i&1) s+=w[i]; best=min(best,s); } bool uw=r(3)==0; if(uw){ best=1<<20; for(int k=0;k<(1<<n);k++) if(a.t[k]) best=min(best,__builtin_popcount(k)); } ok(Cudd_ShortestLength(m,a.f,uw?nullptr:w)==best,"wrong shortest length"); propB(Cudd_ShortestPath(m,a.f,uw?nullptr:w,r(2)?sp:nullptr,&len),[&](const TT&t){ vector<int> l; if(!leq(t,a.t)||!iscube(t,&l)) return false; int s=0; for(int i=0;i<n;i++) if(l[i]==1) s+=uw?1:w[i]; return s==best&&len==best; },"not a shortest path"); } break;
  case 58: if(a.t.any()){ OP("LargestCube"); int len; int best=99; if(!autodyn){ DdGen*g; int*q; CUDD_VALUE_TYPE v; Cudd_ForeachCube(m,a.f,g,q,v){ int k=0; for(int i=0;i<n;i++) k+=q[i]!=2; best=min(best,k); } } bool ad=autodyn; propB(Cudd_LargestCube(m,a.f,&len),[&](const TT&t){ vector<int> l; if(!leq(t,a.t)||!iscube(t,&l)) return false; int k=0; for(int x:l) k+=x!=2; return k==len&&(ad||len==best); },"not a largest cube"); } break;
  case 59: { int i=r(n); OP("Decreasing"); cnt("op_Decreasing"); TT h=cof(a.t,i,1),l=cof(a.t,i,0); ok((Cudd_Decreasing(m,a.f,i)==Cudd_ReadOne(m))==leq(h,l),"wrong answer"); ok((Cudd_Increasing(m,a.f,i)==Cudd_ReadOne(m))==leq(l,h),"wrong answer"); B q=own(Cudd_bddOr(m,a.f,Cudd_bddIthVar(m,i))); break; }
  case 60: { PB q=lit(); B x=own(Cudd_bddOr(m,q.f,a.f)); TT f=q.t|a.t; if(f.all()||q.t.all()) break; OP("MakePrime"); propB(Cudd_bddMakePrime(m,q.f,x),[&](const TT&t){ vector<int> l; if(!leq(q.t,t)||!leq(t,f)||!iscube(t,&l)) return false; for(int i=0;i<n;i++) if(l[i]!=2){ auto k=l; k[i]=2; if(leq(litcube(k),f)) return false; } return true; },"not a prime implicant"); break; }
  case 61: { PB u=lit(); PB extra=lit(); B lb=own(Cudd_bddAnd(m,u.f,extra.f)); TT lt=u.t&extra.t; if(lt.none()) break; OP("MaximallyExpand"); B f=r(2)?own(Cudd_bddOr(m,a.f,lb)):a.f; TT ft=tt(f); vector<int> ul,ll; iscube(u.t,&ul); iscube(lt,&ll); TT e; if(leq(lt,ft)) for(int s=0;s<256;s++){ bool g=true; auto l=ll; for(int i=0;i<N&&g;i++) if(s>>i&1){ if(ll[i]==2||ul[i]!=2) g=false; l[i]=2; } if(g&&leq(litcube(l),ft)) e|=litcube(l); } resB(Cudd_bddMaximallyExpand(m,lb,u.f,f),e); break; }
  case 62: { // a unate function and its largest prime
      int ph=r(1<<n); TT f; B fb=own(Cudd_ReadLogicZero(m)); for(int k=1+r(5);k--;){ vector<int> l(N,2); B c=own(Cudd_ReadOne(m)); for(int i=0;i<n;i++) if(r(2)){ l[i]=ph>>i&1; DdNode*v=Cudd_bddIthVar(m,i); c=own(Cudd_bddAnd(m,c,l[i]?v:Cudd_Not(v))); } f|=litcube(l); fb=own(Cudd_bddOr(m,fb,c)); } if(f.none()||f.all()) break; B pc=own(Cudd_ReadOne(m)); for(int i=0;i<n;i++){ DdNode*v=Cudd_bddIthVar(m,i); pc=own(Cudd_bddAnd(m,pc,ph>>i&1?v:Cudd_Not(v))); } OP("LargestPrimeUnate"); int best=99; for(int s=0;s<(1<<n);s++){ vector<int> l(N,2); for(int i=0;i<n;i++) if(s>>i&1) l[i]=ph>>i&1; if(leq(litcube(l),f)) best=min(best,__builtin_popcount(s)); } propB(Cudd_bddLargestPrimeUnate(m,fb,pc),[&](const TT&t){ vector<int> l; if(!leq(t,f)||!iscube(t,&l)) return false; int k=0; for(int x:l) k+=x!=2; return k==best; },"not a largest prime"); break; }
  case 63: { OP("CofMinterm"); double*q=Cudd_CofMinterm(m,a.f); cnt("op_CofMinterm"); if(ok(q,"failed")){ for(int i=0;i<n;i++) ok(fabs(q[i]-cof(a.t,i,1).count()/256.0)<1e-9,"wrong fraction"); ok(fabs(q[n]-a.t.count()/256.0)<1e-9,"wrong fraction"); FREE(q); } break; }
  case 64: { OP("Correlation"); cnt("op_Correlation"); ok(fabs(Cudd_bddCorrelation(m,a.f,b.f)-(~(a.t^b.t)).count()/256.0)<1e-9,"wrong value"); double pr[N]; for(double&x:pr) x=r(11)/10.0; double e=0; for(int k=0;k<(1<<n);k++) if(a.t[k]==b.t[k]){ double w=1; for(int i=0;i<n;i++) w*=k>>i&1?pr[i]:1-pr[i]; e+=w; } ok(fabs(Cudd_bddCorrelationWeights(m,a.f,b.f,pr)-e)<1e-9,"wrong weighted value"); break; }
  case 65: { if(n<2) break; int i=r(n),j=r(n); if(i==j) break; OP("VarsAreSymmetric"); cnt("op_VarsAreSymmetric"); ok(Cudd_VarsAreSymmetric(m,a.f,i,j)==(cof(cof(a.t,i,0),j,1)==cof(cof(a.t,i,1),j,0)),"wrong answer"); break; }
  case 66: if(a.t.any()){ OP("FindEssential"); TT e=ALL; for(int i=0;i<n;i++){ if(leq(a.t,V[i])) e&=V[i]; if(leq(a.t,~V[i])) e&=~V[i]; } resB(Cudd_FindEssential(m,a.f),e); int i=r(n),ph=r(2); ok(Cudd_bddIsVarEssential(m,a.f,i,ph)==leq(a.t,ph?V[i]:~V[i]),"IsVarEssential wrong"); } break;
  case 67: if(a.t.any()&&!a.t.all()){ OP("FindTwoLiteralClauses"); bool reord=false; for(int i=0;i<n;i++) if(Cudd_ReadPerm(m,i)!=i) reord=true; DdTlcInfo*q=Cudd_FindTwoLiteralClauses(m,a.f); cnt("op_FindTwoLiteralClauses"); if(!ok(q,"failed")) break; set<pair<int,int>> cl; set<int> un_; bool sound=true; unsigned v1,v2; int p1,p2; for(int i=0;Cudd_ReadIthClause(q,i,&v1,&v2,&p1,&p2);i++){ if(v1>=(unsigned)n) { sound=false; break; } TT x=p1?~V[v1]:V[v1]; int l1=2*v1+p1; if(v2>=(unsigned)CUDD_MAXINDEX){ un_.insert(l1); } else if(v2<(unsigned)n){ x|=p2?~V[v2]:V[v2]; int l2=2*v2+p2; cl.insert({min(l1,l2),max(l1,l2)}); } else sound=false; if(!leq(a.t,x)) sound=false; } Cudd_tlcInfoFree(q); ok(sound,"a clause is not implied"); bool full=true; for(int x=0;x<2*n;x++) for(int y=x+1;y<2*n;y++){ if(x/2==y/2) continue; TT k=(x&1?~V[x/2]:V[x/2])|(y&1?~V[y/2]:V[y/2]); if(leq(a.t,k)&&!cl.count({x,y})&&!un_.count(x)&&!un_.count(y)) full=false; } for(int x=0;x<2*n;x++) if(leq(a.t,x&1?~V[x/2]:V[x/2])&&!un_.count(x)) full=false; if(reord&&!full) clausesMissing(); else ok(full,"an implied clause is missing"); } break;
  case 68: case 69: { if(a.t.none()||a.t.all()) break; DdNode**q=nullptr; int w=r(8),k=0; bool conj=w<4; const char*nm[]={"ApproxConjDecomp","IterConjDecomp","GenConjDecomp","VarConjDecomp","ApproxDisjDecomp","IterDisjDecomp","GenDisjDecomp","VarDisjDecomp"}; OP(nm[w]); cnt(string("op_")+nm[w]); switch(w){ case 0: k=Cudd_bddApproxConjDecomp(m,a.f,&q); break; case 1: k=Cudd_bddIterConjDecomp(m,a.f,&q); break; case 2: k=Cudd_bddGenConjDecomp(m,a.f,&q); break; case 3: k=Cudd_bddVarConjDecomp(m,a.f,&q); break; case 4: k=Cudd_bddApproxDisjDecomp(m,a.f,&q); break; case 5: k=Cudd_bddIterDisjDecomp(m,a.f,&q); break; case 6: k=Cudd_bddGenDisjDecomp(m,a.f,&q); break; case 7: k=Cudd_bddVarDisjDecomp(m,a.f,&q); break; }
      if(!ok(k==1||k==2,"failed")) break; TT t=conj?ALL:TT(); for(int i=0;i<k;i++){ TT x=tt(q[i]); if(conj) t&=x; else t|=x; } ok(t==a.t,"the parts do not add up to the function"); for(int i=0;i<k;i++) Cudd_RecursiveDeref(m,q[i]); FREE(q); break; }
  case 70: { B y=cubeOf(mk_); if(a.t.none()) break; OP("CProjection"); TT e=ex(a.t,mk_); propB(Cudd_CProjection(m,a.f,y),[&](const TT&t){ return leq(t,a.t)&&ex(t,mk_)==e&&(t.count()<<__builtin_popcount(mk_))==e.count(); },"not a function selecting one element each"); break; }
  case 71: case 72: case 73: if(n>=2){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); int w=r(7); int parts=w==2||w==3?3:2; int k=n/parts; if(k<1) break; k=1+r(k); vector<DdNode*> x,y,z; vector<int> xi,yi,zi; for(int i=0;i<k;i++){ xi.push_back(p[i]); yi.push_back(p[k+i]); if(parts==3) zi.push_back(p[2*k+i]); } for(int i:xi) x.push_back(Cudd_bddIthVar(m,i)); for(int i:yi) y.push_back(Cudd_bddIthVar(m,i)); for(int i:zi) z.push_back(Cudd_bddIthVar(m,i)); auto num=[&](const vector<int>&v,int q){ int s=0; for(int i:v) s=2*s+(q>>i&1); return s; }; int cst=r(2*(1<<k)+1)-(1<<k); unsigned lo=r(1<<k),hi=r(1<<k); if(lo>hi) swap(lo,hi); TT e; for(int q=0;q<256;q++){ int X_=num(xi,q),Y_=num(yi,q),Z_=num(zi,q); e[q]=w==0?X_>Y_:w==1?X_==Y_:w==2?(X_^Y_)>(X_^Z_):w==3?(X_^Y_)>(Y_^Z_):w==4?X_-Y_>=cst:w==5?X_-Y_!=cst:(unsigned)X_>=lo&&(unsigned)X_<=hi; }
      switch(w){ case 0: OP("Xgty"); resB(Cudd_Xgty(m,k,nullptr,x.data(),y.data()),e); break; case 1: OP("Xeqy"); resB(Cudd_Xeqy(m,k,x.data(),y.data()),e); break; case 2: OP("Dxygtdxz"); resB(Cudd_Dxygtdxz(m,k,x.data(),y.data(),z.data()),e); break; case 3: OP("Dxygtdyz"); resB(Cudd_Dxygtdyz(m,k,x.data(),y.data(),z.data()),e); break; case 4: OP("Inequality"); resB(Cudd_Inequality(m,k,cst,x.data(),y.data()),e); break; case 5: OP("Disequality"); resB(Cudd_Disequality(m,k,cst,x.data(),y.data()),e); break; case 6: OP("Interval"); resB(Cudd_bddInterval(m,k,x.data(),lo,hi),e); break; } } break;
  case 74: if(a.t.any()&&b.t.any()){ OP("ClosestCube"); int best=99; for(int x=0;x<(1<<n);x++) if(a.t[x]) for(int y=0;y<(1<<n);y++) if(b.t[y]) best=min(best,__builtin_popcount(x^y)); int d; propB(Cudd_bddClosestCube(m,a.f,b.f,&d),[&](const TT&t){ if(!leq(t,a.t)||!iscube(t)||d!=best) return false; for(int x=0;x<(1<<n);x++) if(t[x]){ int q=99; for(int y=0;y<(1<<n);y++) if(b.t[y]) q=min(q,__builtin_popcount(x^y)); if(q!=best) return false; } return true; },"not a closest cube"); } break;
  case 75: if(a.t.any()){ OP("MinHammingDist"); int mt[N],x=r(1<<n),ub=1+r(n+1); for(int i=0;i<N;i++) mt[i]=x>>i&1; int best=99; for(int y=0;y<(1<<n);y++) if(a.t[y]) best=min(best,__builtin_popcount(x^y)); cnt("op_MinHammingDist"); ok(Cudd_MinHammingDist(m,a.f,mt,ub)==min(best,ub),"wrong distance"); } break;
  case 76: { if(!mk_) break; B y=cubeOf(mk_); DdNode*G[N]; int*yi=nullptr; int k=__builtin_popcount(mk_); OP("SolveEqn"); DdNode*cc=Cudd_SolveEqn(m,a.f,y,G,&yi,k); if(nul(cc)) break; B h=own(cc); TT e=un(a.t,mk_); if(ok(tt(h)==e,"wrong consistency condition")){ vector<B> gs; TT t=a.t; DdNode*v=Cudd_VerifySol(m,a.f,G,yi,k); if(ok(v,"VerifySol failed")){ B vh=own(v); ok(vh.p==h.p,"the solution does not solve the equation"); } } else FREE(yi); for(int i=0;i<k;i++) Cudd_RecursiveDeref(m,G[i]); break; }
  case 77: { OP("ConstrainDecomp"); if(a.t.none()||a.t.all()) break; DdNode**q=Cudd_bddConstrainDecomp(m,a.f); cnt("op_ConstrainDecomp"); if(!ok(q,"failed")) break; TT t=ALL; for(int i=0;i<n;i++) if(q[i]){ t&=tt(q[i]); } ok(t==a.t,"conjunction differs from the function"); for(int i=0;i<n;i++) if(q[i]) Cudd_RecursiveDeref(m,q[i]); FREE(q); break; }
  case 78: if(a.t.any()){ OP("CharToVect"); DdNode**q=Cudd_bddCharToVect(m,a.f); cnt("op_CharToVect"); if(!ok(q,"failed")) break; vector<TT> g; for(int i=0;i<n;i++) g.push_back(tt(q[i])); TT im; for(int k=0;k<(1<<n);k++){ int j=0; for(int i=0;i<n;i++) { if(g[i][k]) j|=1<<i; } for(int h=0;h<(1<<(N-n));h++) im[j|h<<n]=1; } ok(im==a.t,"range differs from the function"); for(int i=0;i<n;i++) Cudd_RecursiveDeref(m,q[i]); FREE(q); } break;
  case 79: if(a.t.any()){ OP("SplitSet"); vector<DdNode*> x; vars(x,(1<<n)-1); int tot=a.t.count()>>(N-n); int k=1+r(tot); propB(Cudd_SplitSet(m,a.f,x.data(),n,k),[&](const TT&t){ return leq(t,a.t)&&(int)(t.count()>>(N-n))==k; },"wrong number of minterms"); } break;
  case 80: { OP("BddToAdd"); AT e; for(int i=0;i<256;i++) e[i]=a.t[i]; resA(Cudd_BddToAdd(m,a.f),e); break; }
  case 81: { OP("Not"); resB(Cudd_Not(a.f.p),~a.t); break; }
  case 82: { OP("release"); if(bp.size()>6){ int i=r(bp.size()); DdNode*p=bp[i].f.p; bp[i].f.p=nullptr; { auto it=heldB.find(p); if(!--it->second) heldB.erase(it); } if(r(2)) Cudd_IterDerefBdd(m,p); else if(r(2)) Cudd_DelayedDerefBdd(m,p); else Cudd_RecursiveDeref(m,p); bp.erase(bp.begin()+i); cnt("releases"); } break; }
  case 83: case 84: bp.size()>=14?(void)(bp[r(14)]=rnd()):bp.push_back(rnd()); break;
  case 85: { OP("PrioritySelect"); int k=n/3; if(k<1) break; vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); vector<DdNode*> x,y,z; int ym=0,zm=0; for(int i=0;i<k;i++){ x.push_back(Cudd_bddIthVar(m,p[i])); y.push_back(Cudd_bddIthVar(m,p[k+i])); z.push_back(Cudd_bddIthVar(m,p[2*k+i])); ym|=1<<p[k+i]; zm|=1<<p[2*k+i]; } B q=cubeOf(zm); B R=own(Cudd_bddExistAbstract(m,a.f,q)); TT rt=ex(a.t,zm); propB(Cudd_PrioritySelect(m,R,x.data(),y.data(),z.data(),nullptr,k,r(2)?Cudd_Dxygtdxz:Cudd_Xgty),[&](const TT&t){ return leq(t,rt)&&ex(t,ym)==ex(rt,ym)&&(t.count()<<__builtin_popcount(ym))==ex(rt,ym).count(); },"not a function selecting one element each"); break; } } }
static AT perm_(const AT&a,const vector<int>&to,int n){ AT e; for(int q=0;q<256;q++){ int j=q&~((1<<n)-1); for(int i=0;i<n;i++) if(q>>to[i]&1) j|=1<<i; e[q]=a[j]; } return e; }
static AT cofA(const AT&a,int i,bool b){ AT e; for(int q=0;q<256;q++) e[q]=a[b?q|(1<<i):q&~(1<<i)]; return e; }
void W::addop(){ PA a=XA(),b=XA(); int mk_=mask(); double bg=0; auto ap2=[&](const char*nm,DD_AOP f,const AT&e,const PA&x,const PA&y){ OP(nm); resA(Cudd_addApply(m,f,x.f,y.f),e); }; switch(r(50)){
  case 0: case 1: ap2("addPlus",Cudd_addPlus,map2(a.t,b.t,[](double x,double y){ return x+y; }),a,b); break;
  case 2: ap2("addTimes",Cudd_addTimes,map2(a.t,b.t,[](double x,double y){ return x*y; }),a,b); break;
  case 3: ap2("addMinus",Cudd_addMinus,map2(a.t,b.t,[](double x,double y){ return x-y; }),a,b); break;
  case 4: ap2("addMinimum",Cudd_addMinimum,map2(a.t,b.t,[](double x,double y){ return min(x,y); }),a,b); break;
  case 5: ap2("addMaximum",Cudd_addMaximum,map2(a.t,b.t,[](double x,double y){ return max(x,y); }),a,b); break;
  case 6: ap2("addThreshold",Cudd_addThreshold,map2(a.t,b.t,[](double x,double y){ return x>=y?x:0; }),a,b); break;
  case 7: ap2("addSetNZ",Cudd_addSetNZ,map2(a.t,b.t,[](double x,double y){ return y!=0?y:x; }),a,b); break;
  case 8: { bool z=false; for(double x:b.t) if(x==0) z=true; if(!z) ap2("addDivide",Cudd_addDivide,map2(a.t,b.t,[](double x,double y){ return x/y; }),a,b); break; }
  case 9: ap2("addOneZeroMaximum",Cudd_addOneZeroMaximum,map2(a.t,b.t,[](double x,double y){ return x>y?1:0; }),a,b); break;
  case 10: ap2("addDiff",Cudd_addDiff,map2(a.t,b.t,[&](double x,double y){ return x==y?Cudd_V(Cudd_ReadPlusInfinity(m)):min(x,y); }),a,b); break;
  case 11: ap2("addAgreement",Cudd_addAgreement,map2(a.t,b.t,[&](double x,double y){ return x==y?x:bg; }),a,b); break;
  case 12: { PA x=A01(),y=A01(); switch(r(5)){ case 0: ap2("addOr",Cudd_addOr,map2(x.t,y.t,[](double p,double q){ return p||q; }),x,y); break; case 1: ap2("addNand",Cudd_addNand,map2(x.t,y.t,[](double p,double q){ return !(p&&q); }),x,y); break; case 2: ap2("addNor",Cudd_addNor,map2(x.t,y.t,[](double p,double q){ return !(p||q); }),x,y); break; case 3: ap2("addXor",Cudd_addXor,map2(x.t,y.t,[](double p,double q){ return p!=q; }),x,y); break; case 4: ap2("addXnor",Cudd_addXnor,map2(x.t,y.t,[](double p,double q){ return p==q; }),x,y); break; } break; }
  case 13: switch(r(6)){ case 0: ap2("addEquals",Cudd_addEquals,map2(a.t,b.t,[](double x,double y){ return x==y; }),a,b); break; case 1: ap2("addNotEquals",Cudd_addNotEquals,map2(a.t,b.t,[](double x,double y){ return x!=y; }),a,b); break; case 2: ap2("addGreaterThan",Cudd_addGreaterThan,map2(a.t,b.t,[](double x,double y){ return x>y; }),a,b); break; case 3: ap2("addGreaterThanEquals",Cudd_addGreaterThanEquals,map2(a.t,b.t,[](double x,double y){ return x>=y; }),a,b); break; case 4: ap2("addLessThan",Cudd_addLessThan,map2(a.t,b.t,[](double x,double y){ return x<y; }),a,b); break; case 5: ap2("addLessThanEquals",Cudd_addLessThanEquals,map2(a.t,b.t,[](double x,double y){ return x<=y; }),a,b); break; } break;
  case 14: { PA x=a; bool in=true; for(double v:b.t) if(v<=0||v!=floor(v)) in=false; for(double v:a.t) if(v!=floor(v)) in=false; if(in) ap2("addMod",Cudd_addMod,map2(a.t,b.t,[](double p,double q){ return p-q*floor(p/q); }),a,b); bool pos=true; for(double v:a.t) if(v<=0) pos=false; for(double v:b.t) if(v<0||v!=floor(v)) pos=false; if(pos) ap2("addPow",Cudd_addPow,map2(a.t,b.t,[](double p,double q){ return pow(p,q); }),a,b); break; }
  case 15: { OP("addLog"); bool pos=true; for(double v:a.t) if(v<=0) pos=false; if(pos){ AT e=a.t; for(double&v:e) v=log(v); resA(Cudd_addMonadicApply(m,Cudd_addLog,a.f),e); } break; }
  case 16: { OP("addFindMax"); cnt("op_addFindMax"); DdNode*q=Cudd_addFindMax(m,a.f); ok(q&&Cudd_V(q)==*max_element(a.t.begin(),a.t.end()),"wrong maximum"); q=Cudd_addFindMin(m,a.f); OP("addFindMin"); ok(q&&Cudd_V(q)==*min_element(a.t.begin(),a.t.end()),"wrong minimum"); set<double> s(a.t.begin(),a.t.end()); OP("CountLeaves"); ok(Cudd_CountLeaves(a.f)==(int)s.size(),"wrong number of leaves"); OP("DagSize-ADD"); ok(Cudd_DagSize(a.f)==dagsize(a.f),"wrong size"); break; }
  case 17: { AT e=a.t; int bit=r(4); for(double&v:e) v=((int)v>>bit)&1; OP("addIthBit"); for(double v:a.t) if(v<0||v!=floor(v)) return; if(r(2)) resA(Cudd_addIthBit(m,a.f,bit),e); else { OP("addBddIthBit"); TT t; for(int i=0;i<256;i++) t[i]=e[i]; resB(Cudd_addBddIthBit(m,a.f,bit),t); } break; }
  case 18: { for(double v:a.t) if(fabs(v)<.1) return; AT e=a.t; for(double&v:e) v=1/v; OP("addScalarInverse"); B eps=own(Cudd_addConst(m,.1)); resA(Cudd_addScalarInverse(m,a.f,eps),e); break; }
  case 19: case 20: case 21: { PA f=A01(); AT e; for(int i=0;i<256;i++) e[i]=f.t[i]?a.t[i]:b.t[i]; OP("addIte"); resA(Cudd_addIte(m,f.f,a.f,b.f),e); OP("addIteConstant"); cnt("op_addIteConstant"); DdNode*q=Cudd_addIteConstant(m,f.f,a.f,b.f); bool k=all_of(e.begin(),e.end(),[&](double v){ return v==e[0]; }); ok(q&&(q==DD_NON_CONSTANT?!k:at(q)==e),"wrong answer"); OP("addEvalConst"); bool any=false,cst=true; double v=0; for(int i=0;i<256;i++) if(f.t[i]){ if(any&&a.t[i]!=v) cst=false; v=a.t[i]; any=true; } if(any){ q=Cudd_addEvalConst(m,f.f,a.f); ok(cst?(q!=DD_NON_CONSTANT&&Cudd_IsConstant(q)&&Cudd_V(q)==v):q==DD_NON_CONSTANT||!Cudd_IsConstant(q),"wrong answer"); } break; }
  case 22: { OP("addLeq"); cnt("op_addLeq"); bool l=true; for(int i=0;i<256;i++) if(a.t[i]>b.t[i]) l=false; ok(Cudd_addLeq(m,a.f,b.f)==l,"wrong answer"); B q=own(Cudd_addApply(m,Cudd_addMinimum,a.f,b.f)); ok(Cudd_addLeq(m,q,b.f)==1,"wrong answer"); OP("EqualSupNorm"); double d=0; for(int i=0;i<256;i++) d=max(d,fabs(a.t[i]-b.t[i])); double tol=r(8)/2.0+.25; ok(Cudd_EqualSupNorm(m,a.f,b.f,tol,0)==(d<=tol),"wrong answer"); break; }
  case 23: { OP("addCmpl"); AT e=a.t; for(double&v:e) v=v==0?1:0; resA(Cudd_addCmpl(m,a.f),e); OP("addNegate"); e=a.t; for(double&v:e) v=-v; resA(Cudd_addNegate(m,a.f),e); break; }
  case 24: { int d=r(3); double tr=pow(10.0,d); AT e=a.t; for(double&v:e) v=floor(v*tr+.5)/tr; OP("addRoundOff"); resA(Cudd_addRoundOff(m,a.f,d),e); break; }
  case 25: if(n>=2){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); int k=1+r(n/2); vector<B> hold; vector<DdNode*> x,y; for(int i=0;i<k;i++){ hold.push_back(own(Cudd_addIthVar(m,p[i]))); x.push_back(hold.back()); hold.push_back(own(Cudd_addIthVar(m,p[k+i]))); y.push_back(hold.back()); } AT w,h,q,xy; for(int s=0;s<256;s++){ int c=0,d=0,X_=0,Y_=0; for(int i=0;i<k;i++){ int u=s>>p[i]&1,v=s>>p[k+i]&1; c+=u&v; d+=u^v; X_=2*X_+u; Y_=2*Y_+v; } w[s]=c&1?-1:1; h[s]=d; xy[s]=X_==Y_; } switch(r(3)){ case 0: OP("addWalsh"); resA(Cudd_addWalsh(m,x.data(),y.data(),k),w); break; case 1: { OP("addHamming"); vector<DdNode*> bx,by; for(int i=0;i<k;i++){ bx.push_back(Cudd_bddIthVar(m,p[i])); by.push_back(Cudd_bddIthVar(m,p[k+i])); } resA(Cudd_addHamming(m,bx.data(),by.data(),k),h); break; } case 2: OP("addXeqy"); resA(Cudd_addXeqy(m,k,x.data(),y.data()),xy); break; } } break;
  case 26: { int k=1+r(min(n,5)),top=r(n-k+1),mod=2+r(7),opt=r(4); OP("addResidue"); AT e; for(int s=0;s<256;s++){ int v=0; for(int i=0;i<k;i++){ int bitv=s>>(top+i)&1; int w=opt&CUDD_RESIDUE_MSB?k-1-i:i; int sg=(opt&CUDD_RESIDUE_TC)&&w==k-1?-1:1; v+=sg*bitv*(1<<w); } v%=mod; if(v<0) v+=mod; e[s]=v; } resA(Cudd_addResidue(m,k,mod,opt,top),e); break; }
  case 27: case 28: { B c=own(Cudd_BddToAdd(m,cubeOf(mk_))); int w=r(4); AT e=w==2?A01().t:a.t; PA src=a; if(w==2){ PA q=A01(); src=q; e=q.t; } for(int i=0;i<n;i++) if(mk_>>i&1){ AT h=cofA(e,i,1),l=cofA(e,i,0); e=map2(h,l,[&](double x,double y){ return w==0?x+y:w==1?x*y:w==2?(double)(x||y):min(x,y); }); } switch(w){ case 0: OP("addExistAbstract"); resA(Cudd_addExistAbstract(m,src.f,c),e); break; case 1: OP("addUnivAbstract"); resA(Cudd_addUnivAbstract(m,src.f,c),e); break; case 2: OP("addOrAbstract"); resA(Cudd_addOrAbstract(m,src.f,c),e); break; case 3: OP("addMinAbstract"); resA(Cudd_addMinAbstract(m,src.f,c),e); break; } break; }
  case 29: case 30: { vector<B> hold; vector<DdNode*> z; int zm=0; for(int i=0;i<n;i++) if(r(3)==0){ zm|=1<<i; hold.push_back(own(Cudd_addIthVar(m,i))); z.push_back(hold.back()); } int w=r(3); AT e=map2(a.t,b.t,[&](double x,double y){ return w==2?x+y:x*y; }); for(int i=0;i<n;i++) if(zm>>i&1){ AT h=cofA(e,i,1),l=cofA(e,i,0); e=map2(h,l,[&](double x,double y){ return w==2?min(x,y):x+y; }); } switch(w){ case 0: OP("addMatrixMultiply"); resA(Cudd_addMatrixMultiply(m,a.f,b.f,z.data(),z.size()),e); break; case 1: OP("addTimesPlus"); resA(Cudd_addTimesPlus(m,a.f,b.f,z.data(),z.size()),e); break; case 2: OP("addTriangle"); resA(Cudd_addTriangle(m,a.f,b.f,z.data(),z.size()),e); break; } break; }
  case 31: { PA c=XA(); AT e; for(int i=0;i<256;i++) e[i]=min(a.t[i],b.t[i]+c.t[i]); OP("addOuterSum"); resA(Cudd_addOuterSum(m,a.f,b.f,c.f),e); break; }
  case 32: { int v=r(n); PA g=A01(); AT e; AT h=cofA(a.t,v,1),l=cofA(a.t,v,0); for(int i=0;i<256;i++) e[i]=g.t[i]?h[i]:l[i]; OP("addCompose"); resA(Cudd_addCompose(m,a.f,g.f,v),e); break; }
  case 33: case 34: { int w=r(3); vector<PA> g; vector<DdNode*> on,off; vector<B> hold; int sub=mk_; for(int i=0;i<n;i++){ PA x; if((sub>>i&1)){ x=A01(); if(w==2){ bool bad=false; for(int j=0;j<n;j++) if(sub>>j&1) if(cofA(x.t,j,0)!=cofA(x.t,j,1)) bad=true; if(bad){ x.f=own(Cudd_addConst(m,1)); x.t.fill(1); } } } else { x.f=own(Cudd_addIthVar(m,i)); for(int k=0;k<256;k++) x.t[k]=V[i][k]; } g.push_back(x); } for(int i=0;i<n;i++){ on.push_back(g[i].f); hold.push_back(own(Cudd_addCmpl(m,g[i].f))); off.push_back(hold.back()); } AT e; for(int k=0;k<256;k++){ int j=k&~((1<<n)-1); for(int i=0;i<n;i++) if(g[i].t[k]) j|=1<<i; e[k]=a.t[j]; } if(w==0){ OP("addVectorCompose"); resA(Cudd_addVectorCompose(m,a.f,on.data()),e); } else if(w==1){ OP("addGeneralVectorCompose"); resA(Cudd_addGeneralVectorCompose(m,a.f,on.data(),off.data()),e); } else { OP("addNonSimCompose"); resA(Cudd_addNonSimCompose(m,a.f,on.data()),e); } break; }
  case 35: { vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),r.g); OP("addPermute"); resA(Cudd_addPermute(m,a.f,p.data()),perm_(a.t,p,n)); break; }
  case 36: if(n>=2){ vector<int> p(n),to(n); for(int i=0;i<n;i++) p[i]=to[i]=i; shuffle(p.begin(),p.end(),r.g); int k=1+r(n/2); vector<B> hold; vector<DdNode*> x,y; for(int i=0;i<k;i++){ hold.push_back(own(Cudd_addIthVar(m,p[2*i]))); x.push_back(hold.back()); hold.push_back(own(Cudd_addIthVar(m,p[2*i+1]))); y.push_back(hold.back()); swap(to[p[2*i]],to[p[2*i+1]]); } OP("addSwapVariables"); resA(Cudd_addSwapVariables(m,a.f,x.data(),y.data(),k),perm_(a.t,to,n)); } break;
  case 37: case 38: { double lo=r(6)-2,hi=lo+r(4); int w=r(4); TT e; for(int i=0;i<256;i++) e[i]=w==0?a.t[i]>=lo:w==1?a.t[i]>lo:w==2?a.t[i]>=lo&&a.t[i]<=hi:a.t[i]!=0; switch(w){ case 0: OP("addBddThreshold"); resB(Cudd_addBddThreshold(m,a.f,lo),e); break; case 1: OP("addBddStrictThreshold"); resB(Cudd_addBddStrictThreshold(m,a.f,lo),e); break; case 2: OP("addBddInterval"); resB(Cudd_addBddInterval(m,a.f,lo,hi),e); break; case 3: OP("addBddPattern"); resB(Cudd_addBddPattern(m,a.f),e); break; } break; }
  case 39: { PA c=A01(); bool any=false; for(double v:c.t) any|=v!=0; if(!any) break; bool rs=r(2); OP(rs?"addRestrict":"addConstrain"); DdNode*q=rs?Cudd_addRestrict(m,a.f,c.f):Cudd_addConstrain(m,a.f,c.f); if(nul(q)) break; B h=own(q); AT t=at(q); bool good=true; for(int i=0;i<256;i++) if(c.t[i]&&t[i]!=a.t[i]) good=false; ok(good,"disagrees on the care set"); break; }
  case 40: { OP("addCountMinterm"); cnt("op_addCountMinterm"); int k=0; for(double v:a.t) k+=v!=0; ok(Cudd_CountMinterm(m,a.f,N)==k,"wrong count"); int in[N]; for(int q=0;q<16;q++){ int x=r(1<<n); for(int i=0;i<N;i++) in[i]=x>>i&1; DdNode*v=Cudd_Eval(m,a.f,in); ok(v&&Cudd_V(v)==a.t[x],"Eval gives a wrong value"); } if(!autodyn){ AT e; e.fill(0); DdGen*g; int*q; CUDD_VALUE_TYPE v; Cudd_ForeachCube(m,a.f,g,q,v){ for(int s=0;s<256;s++){ bool in_=true; for(int i=0;i<n;i++) if(q[i]!=2&&q[i]!=(s>>i&1)) in_=false; if(in_) e[s]+=v; } } OP("ForeachCube-ADD"); ok(sameA(e,a.t),"cubes do not add up to the function"); } break; }
  case 41: { vector<B> hold; vector<DdNode*> x; vector<int> ph; AT e; e.fill(1); for(int i=0;i<n;i++) if(mk_>>i&1){ hold.push_back(own(Cudd_addIthVar(m,i))); x.push_back(hold.back()); ph.push_back(r(2)); for(int s=0;s<256;s++) if((s>>i&1)!=ph.back()) e[s]=0; } OP("addComputeCube"); resA(Cudd_addComputeCube(m,x.data(),ph.data(),x.size()),e); break; }
  case 42: { OP("addConst"); double v=r(7)-3; AT e; e.fill(v); resA(Cudd_addConst(m,v),e); break; }
  case 43: { int sp=0; for(int i=0;i<n;i++) if(cofA(a.t,i,0)!=cofA(a.t,i,1)) sp|=1<<i; OP("Support-ADD"); ok(Cudd_SupportSize(m,a.f)==__builtin_popcount(sp),"wrong support size"); break; }
  default: PA q=rndA(); if(ap.size()>=10) ap[r(10)]=q; else ap.push_back(q); } }
void W::zddop(){ auto XZ=[&]{ return zp[r(zp.size())]; }; PZ a=XZ(),b=XZ(),c=XZ(); int v=r(nz); TT U; for(int i=0;i<(1<<nz);i++) U[i]=1; auto list=[&](const TT&t){ vector<int> s; for(int i=0;i<256;i++) if(t[i]) s.push_back(i); return s; };
  switch(r(30)){
  case 0: case 1: OP("zddUnion"); resZ(Cudd_zddUnion(m,a.f,b.f),a.t|b.t); break;
  case 2: case 3: OP("zddIntersect"); resZ(Cudd_zddIntersect(m,a.f,b.f),a.t&b.t); break;
  case 4: case 5: OP("zddDiff"); resZ(Cudd_zddDiff(m,a.f,b.f),a.t&~b.t); break;
  case 6: { OP("zddDiffConst"); cnt("op_zddDiffConst"); DdNode*q=Cudd_zddDiffConst(m,a.f,b.f); ok(leq(a.t,b.t)?q==Cudd_ReadZero(m):q!=Cudd_ReadZero(m),"wrong answer"); Z u(this,Cudd_zddUnion(m,a.f,b.f)); ok(Cudd_zddDiffConst(m,a.f,u)==Cudd_ReadZero(m),"subset not recognised"); break; }
  case 7: case 8: { OP("zddChange"); TT e; for(int s:list(a.t)) e[s^(1<<v)]=1; resZ(Cudd_zddChange(m,a.f,v),e); break; }
  case 9: { OP("zddSubset1"); TT e; for(int s:list(a.t)) if(s>>v&1) e[s^(1<<v)]=1; resZ(Cudd_zddSubset1(m,a.f,v),e); break; }
  case 10: { OP("zddSubset0"); TT e; for(int s:list(a.t)) if(!(s>>v&1)) e[s]=1; resZ(Cudd_zddSubset0(m,a.f,v),e); break; }
  case 11: case 12: OP("zddIte"); resZ(Cudd_zddIte(m,a.f,b.f,c.f),ite(a.t,b.t,c.t)&U); break;
  case 13: { OP("zddUnateProduct"); TT e; for(int s:list(a.t)) for(int t:list(b.t)) e[s|t]=1; resZ(Cudd_zddUnateProduct(m,a.f,b.f),e); break; }
  case 14: if(b.t.any()){ auto B_=list(b.t); TT e; for(int s=0;s<(1<<nz);s++){ bool in=true; for(int q:B_) if((s&q)||!a.t[s|q]) in=false; e[s]=in; } bool f=r(2); OP(f?"zddDivideF":"zddDivide"); resZ(f?Cudd_zddDivideF(m,a.f,b.f):Cudd_zddDivide(m,a.f,b.f),e); } break;
  case 15: { OP("zddCount"); cnt("op_zddCount"); int k=a.t.count(); ok(Cudd_zddCount(m,a.f)==k,"wrong count"); ok(Cudd_zddCountDouble(m,a.f)==k,"wrong count"); ok(Cudd_zddCountMinterm(m,a.f,nz)==k,"wrong minterm count"); ok(Cudd_zddDagSize(a.f)==[&]{ set<DdNode*> s; function<void(DdNode*)> go=[&](DdNode*x){ if(Cudd_IsConstant(x)) return; if(!s.insert(x).second) return; go(Cudd_T(x)); go(Cudd_E(x)); }; go(a.f); return (int)s.size(); }(),"wrong size"); break; }
  case 16: { OP("zddSupport"); cnt("op_zddSupport"); if(zmult!=1||n!=nz) break; int e=0; for(int s:list(a.t)) e|=s; DdNode*q=Cudd_zddSupport(m,a.f); if(nul(q)) break; B h=own(q); TT t=ALL; for(int i=0;i<n;i++) if(e>>i&1) t&=V[i]; ok(tt(q)==t,"wrong support"); break; }
  case 17: { OP("zddForeachPath"); if(autodyn) break; cnt("op_zddForeachPath"); TT t; DdGen*g; int*q; int k=0; bool dup=false; Cudd_zddForeachPath(m,a.f,g,q){ int s=0; for(int i=0;i<nz;i++) if(q[i]==1) s|=1<<i; if(t[s]) dup=true; t[s]=1; k++; } ok(!dup&&t==a.t,"paths do not correspond to the sets"); break; }
  case 18: if(zmult==1&&n==nz&&!autodyn&&[&]{ for(int i=0;i<n;i++) if(Cudd_ReadPerm(m,i)!=Cudd_ReadPermZdd(m,i)) return false; return true; }()){ PB x=X(); TT e=x.t&U; OP("zddPortFromBdd"); if(!resZ(Cudd_zddPortFromBdd(m,x.f),e)) break; TT full; for(int i=0;i<256;i++) full[i]=a.t[i&((1<<n)-1)]; OP("zddPortToBdd"); resB(Cudd_zddPortToBdd(m,a.f),full); } break;
  case 19: case 20: case 21: case 22: if(zmult==2){ // covers: literals of BDD variable i are 2i (positive) and 2i+1 (negative)
      auto cov=[&](const TT&t){ TT f; for(int s:list(t)){ TT k=ALL; for(int i=0;i<n;i++){ if(s>>(2*i)&1) k&=V[i]; if(s>>(2*i+1)&1) k&=~V[i]; } f|=k; } return f; }; auto rndC=[&]{ TT t; for(int k=r(6);k--;){ int s=0; for(int i=0;i<n;i++){ int w=r(3); if(w<2) s|=1<<(2*i+w); } t[s]=1; } return PZ{mkZ(t),t}; }; PZ p=rndC(),q=rndC();
      switch(r(5)){ case 0: { OP("zddProduct"); TT e; for(int s:list(p.t)) for(int t:list(q.t)){ int u=s|t; bool bad=false; for(int i=0;i<n;i++) if((u>>(2*i)&3)==3) bad=true; if(!bad) e[u]=1; } resZ(Cudd_zddProduct(m,p.f,q.f),e); break; }
        case 1: { OP("MakeBddFromZddCover"); resB(Cudd_MakeBddFromZddCover(m,p.f),cov(p.t)); break; }
        case 2: if(q.t.any()){ bool f=r(2); OP(f?"zddWeakDivF":"zddWeakDiv"); auto Q=list(q.t); TT e; for(int s=0;s<(1<<nz);s++){ bool in=true; for(int u:Q){ for(int i=0;i<n;i++) if((u>>(2*i)&3)&&(s>>(2*i)&3)) in=false; if(!in||!p.t[s|u]){ in=false; break; } } e[s]=in; } resZ(f?Cudd_zddWeakDivF(m,p.f,q.f):Cudd_zddWeakDiv(m,p.f,q.f),e); } break;
        case 3: { OP("zddComplement"); DdNode*x=Cudd_zddComplement(m,p.f); if(nul(x)) break; Z h(this,x); TT t=zt(x); ok(cov(t)==~cov(p.t),"not the complement"); break; }
        case 4: { PB x=X(),y=X(); B l=own(Cudd_bddAnd(m,x.f,y.f)); OP("zddIsop"); DdNode*zi=nullptr; DdNode*bd=Cudd_zddIsop(m,l,x.f,&zi); if(nul(bd)) break; B h=own(bd); Z zh(this,zi); TT t=tt(bd); TT lt=x.t&y.t; ok(leq(lt,t)&&leq(t,x.t),"outside of the interval"); TT fam=zt(zi); ok(cov(fam)==t,"the cover does not denote the function"); bool irr=true; for(int s:list(fam)){ TT u=fam; u[s]=0; if(leq(lt,cov(u))) irr=false; } ok(irr,"the cover is redundant"); pushB(h,t); break; } } } break;
  case 23: { OP("zddDumpless"); break; }
  default: PZ q=rndZ(); if(zp.size()>=12) zp[r(12)]=q; else zp.push_back(q); } }
int main(int c,char**v){ for(int i=0;i<N;i++) for(int k=0;k<256;k++) V[i][k]=k>>i&1; ALL.set(); bool stress=!strcmp(v[1],"c02"); uint64_t seed=strtoull(v[2],0,10); int hist=atoi(v[3]),ops=atoi(v[4]);
  for(int h=0;h<hist&&!NVIOL;h++){ Rng r(seed*1000003+h); W w(r,stress); CTX=S("seed %llu history %d",(unsigned long long)seed,h); if(stress) srand(seed+h); w.start(); cnt("histories"); Cudd_Srandom(w.m,1+h);
    for(int i=0;i<ops&&!NVIOL;i++){ CTX=S("seed %llu history %d operation %d, %d variables",(unsigned long long)seed,h,i,w.n); int k=r(10); if(stress&&r(6)==0) w.disturb(); else if(k<6) w.bddop(); else if(k<8) w.addop(); else w.zddop(); if(getenv("CUDD_FUZZ_TRACE")) fprintf(stderr,"%d %s\n",i,w.opname.c_str()); if(w.broken) break; if(getenv("CUDD_FUZZ_EACH")){ string o=w.opname; w.recheck(("after-"+o).c_str()); if(stress==0||1) w.debug(("after-"+o).c_str()); w.alive(); } if(stress&&Cudd_ReadReorderings(w.m)>0) cnt("operations_after_reordering"); cnt("operations"); }
    if(!NVIOL) w.end(); }
  finish(); }
