// H03: classical heuristics on random STRIPS-like models against their definitions.  usage: hs seed rounds
#include <algorithm>
#include <climits>
#include <queue>
#include <set>
#include "hcommon.hpp"
#include "heuristics/rcHeuristics/hsAddFF.h"
#include "heuristics/rcHeuristics/hsFilter.h"
#include "heuristics/rcHeuristics/hsLmCut.h"
using namespace progression;
typedef long long ll; const ll INF=1e15;
struct Op { vector<int> p,a,d; int c; };
struct Sas { int n; vector<Op> o; bool precless=false; };
static string show(const Sas&s,const vector<int>&st,const vector<int>&g){ string r=S("%d facts",s.n); auto l=[](const vector<int>&v){ string r="{"; for(int x:v) r+=S("%d ",x); return r+"}"; }; for(size_t i=0;i<s.o.size()&&i<40;i++) r+=S("; op%zu cost %d pre%s add%s",i,s.o[i].c,l(s.o[i].p).c_str(),l(s.o[i].a).c_str()); return r+"; state "+l(st)+" goal "+l(g); }
static int*arr(const vector<int>&v){ int*r=new int[v.size()+1]; copy(v.begin(),v.end(),r); return r; }
static Model*mk(const Sas&s){ Model*m=new Model(); int A=s.o.size(); m->isHtnModel=false; m->numStateBits=m->numVars=s.n; m->numActions=m->numTasks=A; m->precLists=new int*[A]; m->addLists=new int*[A]; m->delLists=new int*[A]; m->numPrecs=new int[A]; m->numAdds=new int[A]; m->numDels=new int[A]; m->actionCosts=new int[A]; m->isPrimitive=new bool[A]; m->taskNames=new string[A]; m->factStrs=new string[s.n];
  vector<int> pl; vector<vector<int>> inv(s.n); for(int i=0;i<A;i++){ const Op&o=s.o[i]; m->precLists[i]=arr(o.p); m->addLists[i]=arr(o.a); m->delLists[i]=arr(o.d); m->numPrecs[i]=o.p.size(); m->numAdds[i]=o.a.size(); m->numDels[i]=o.d.size(); m->actionCosts[i]=o.c; m->isPrimitive[i]=true; m->taskNames[i]=S("op%d",i); if(o.p.empty()) pl.push_back(i); for(int f:o.p) inv[f].push_back(i); }
  for(int f=0;f<s.n;f++) m->factStrs[f]=S("f%d",f); m->numPrecLessActions=pl.size(); m->precLessActions=arr(pl); m->precToActionSize=new int[s.n]; m->precToAction=new int*[s.n]; for(int f=0;f<s.n;f++){ m->precToActionSize[f]=inv[f].size(); m->precToAction[f]=arr(inv[f]); } return m; }
// least fixpoint of the additive (sum) or maximum equations
static vector<ll> fix(const Sas&s,const vector<int>&st,bool add,const set<int>*without=nullptr){ vector<ll> v(s.n,INF); for(int f:st) v[f]=0; for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<s.o.size();i++){ if(without&&without->count(i)) continue; ll c=0; for(int f:s.o[i].p) c=add?min(INF,c+v[f]):max(c,v[f]); if(c>=INF) continue; c+=s.o[i].c; for(int f:s.o[i].a) if(c<v[f]) v[f]=c,ch=true; } } return v; }
static ll val(const vector<ll>&v,const vector<int>&g,bool add){ ll r=0; for(int f:g) r=add?min(INF,r+v[f]):max(r,v[f]); return min(r,INF); }
// cost of an optimal relaxed plan, by Dijkstra over the sets of facts reached
static ll hplus(const Sas&s,const vector<int>&st,const vector<int>&g){ auto bits=[](const vector<int>&v){ unsigned r=0; for(int f:v) r|=1u<<f; return r; }; vector<ll> d(1u<<s.n,INF); priority_queue<pair<ll,unsigned>,vector<pair<ll,unsigned>>,greater<>> q; unsigned G=bits(g),s0=bits(st); vector<unsigned> P,A; for(auto&o:s.o) P.push_back(bits(o.p)),A.push_back(bits(o.a)); d[s0]=0; q.push({0,s0});
  while(!q.empty()){ auto [c,x]=q.top(); q.pop(); if(c>d[x]) continue; if((G&~x)==0) return c; for(size_t i=0;i<P.size();i++) if(!(P[i]&~x)){ unsigned y=x|A[i]; if(c+s.o[i].c<d[y]){ d[y]=c+s.o[i].c; q.push({d[y],y}); } } } return INF; }
// operations that may be selected when every fact is traced back to a supporter that is best with respect to the maximum equations; unique = no choice was left
static ll backtrace(const Sas&s,const vector<int>&st,const vector<int>&g,const vector<ll>&v,bool&unique){ set<int> in(st.begin(),st.end()),ops,fs; vector<int> q(g); unique=true; while(!q.empty()){ int f=q.back(); q.pop_back(); if(!fs.insert(f).second||in.count(f)) continue; int k=0; for(size_t i=0;i<s.o.size();i++) if(find(s.o[i].a.begin(),s.o[i].a.end(),f)!=s.o[i].a.end()){ ll c=0; for(int p:s.o[i].p) c=max(c,v[p]); if(c<INF&&c+s.o[i].c==v[f]){ k++; ops.insert(i); for(int p:s.o[i].p) q.push_back(p); } } if(k!=1) unique=false; } ll r=0; for(int o:ops) r+=s.o[o].c; return r; }
static Sas gen(Rng&R,bool small){ Sas s; s.n=small?3+R(7):20+R(80); int A=small?2+R(14):20+R(150); int costs=R(4); bool pl=R.p(.25); int maxp=1+R(small?3:4); for(int i=0;i<A;i++){ Op o; auto pick=[&](int k){ set<int> v; while(k-->0) v.insert(R.p(.5)?R(s.n):R(1+R(s.n))); vector<int> r(v.begin(),v.end()); shuffle(r.begin(),r.end(),R.g); return r; }; o.p=pick(1+R(maxp)); if(pl&&R.p(.15)) o.p.clear(); o.a=pick(R(4)); o.d=pick(R(3)); o.c=costs==0?1:costs==1?R(4):costs==2?(R.p(.4)?0:1+R(9)):1+R(1000); if(o.p.empty()) s.precless=true; s.o.push_back(o); } return s; }
// additive values double from level to level until they leave the range of the data type
static Sas genBig(Rng&R){ Sas s; int L=22+R(13),C=1+R(7); s.n=2*(L+1)+R(4); auto f=[](int l,int k){ return 2*l+k; }; for(int l=1;l<=L;l++) for(int k=0;k<2;k++){ s.o.push_back({{f(l-1,0),f(l-1,1)},{f(l,k)},{},R.p(.1)?R(4*C):C}); if(R.p(.15)) s.o.push_back({{f(l-1,R(2)),f(l-1,R(2))},{f(l,k)},{},R(C*9)}); } for(auto&o:s.o){ sort(o.p.begin(),o.p.end()); o.p.erase(unique(o.p.begin(),o.p.end()),o.p.end()); if(R.p(.1)) o.d={o.p[0]}; } shuffle(s.o.begin(),s.o.end(),R.g); return s; }
int main(int c,char**v){ uint64_t seed=strtoull(v[1],0,10); int rounds=atoi(v[2]); for(int r=0;r<rounds&&!NVIOL;r++){ Rng R(seed*1000003+r); bool small=R.p(.7),big=R.p(.06); if(big) small=false; Sas s=big?genBig(R):gen(R,small); if(big) cnt("models_with_exploding_values"); Model*m=mk(s); hsAddFF*ha=new hsAddFF(m); ha->heuristic=sasAdd; hsAddFF*hf=new hsAddFF(m); hsFilter*fi=new hsFilter(m); hsLmCut*lc=new hsLmCut(m); bucketSet st; st.init(s.n); noDelIntSet gs; gs.init(s.n);
    cnt("models"); if(s.precless) cnt("models_with_actions_without_preconditions"); struct Old { vector<int> st,g; int a,f,l; }; vector<Old> old; int K=4+R(8);
    for(int k=0;k<K&&!NVIOL;k++){ vector<int> S0,G; bool again=!old.empty()&&R.p(.25); int oi=0; if(again){ oi=R(old.size()); S0=old[oi].st; G=old[oi].g; } else if(big){ S0={0,1}; if(R.p(.3)) S0.push_back(R(s.n)); set<int> g; for(int j=1+R(3);j--;) g.insert(s.n-1-R(R.p(.5)?8:16)); G.assign(g.begin(),g.end()); } else { double d=R.p(.5)?.15:.4; for(int f=0;f<s.n;f++) if(R.p(d)) S0.push_back(f); set<int> g; int ng=R.p(.03)?0:1+R(small?3:5); while(ng-->0) g.insert(R(s.n)); G.assign(g.begin(),g.end()); shuffle(S0.begin(),S0.end(),R.g); shuffle(G.begin(),G.end(),R.g); }
      auto fill=[&]{ st.clear(); for(int f:S0) st.insert(f); gs.clear(); for(int f:G) gs.insert(f); }; string w=show(s,S0,G);
      fill(); int a=ha->getHeuristicValue(st,gs); fill(); int f=hf->getHeuristicValue(st,gs); fill(); int x=fi->getHeuristicValue(st,gs); int l=-1; vector<vector<int>> cuts; if(lc){ fill(); l=lc->getHeuristicValue(st,gs); if(l!=0&&l!=UNREACHABLE) for(auto*q:*lc->cuts) cuts.push_back(vector<int>(q->lm,q->lm+q->size)); }
      auto va=fix(s,S0,true),vm=fix(s,S0,false); ll A=val(va,G,true),M=val(vm,G,false); bool un=A>=INF; cnt("evaluations"); cnt(un?"unreachable_goals":"reachable_goals"); auto ex=[&](ll y){ return y>=INF?(ll)UNREACHABLE:y; };
      bool ov=false; if(big) for(auto&o:s.o){ ll y=o.c; for(int q:o.p) y=min(INF,y+va[q]); if(y<INF&&y>=INT_MAX) ov=true; } bool okA=a==ex(A)&&(un||A<INT_MAX-2); if(big&&a==INT_MAX-2&&(ov||(!un&&A>=INT_MAX-2))) okA=true,cnt("cut_values"); if(!okA) viol("additive",S("additive estimate %d, the fixpoint is %lld: ",a,ex(A))+w); if(x!=(un?UNREACHABLE:0)) viol("filter",S("filter says %d, goal %s: ",x,un?"unreachable":"reachable")+w); if((f==UNREACHABLE)!=un) viol("ff-reachability",S("FF says %d, goal %s: ",f,un?"unreachable":"reachable")+w); if(lc&&(l==UNREACHABLE)!=un) viol("lmcut-reachability",S("LM-cut says %d, goal %s: ",l,un?"unreachable":"reachable")+w);
      if(!un&&!NVIOL){ bool uq; ll ub=backtrace(s,S0,G,vm,uq); ll hp=small?hplus(s,S0,G):M; if(small) cnt("optimal_relaxed_costs"); if(f<hp||f>ub) viol("ff-range",S("FF estimate %d, optimal relaxed cost %lld, at most %lld: ",f,hp,ub)+w); else if(uq){ cnt("ff_exact"); if(f!=ub) viol("ff-exact",S("FF estimate %d, the relaxed plan costs %lld: ",f,ub)+w); }
        if(f>0) cnt("positive_estimates"); if(lc){ cnt("lmcut_estimates"); if(l<M) viol("lmcut-below-max",S("LM-cut %d, maximum heuristic %lld: ",l,M)+w); if(small&&l>hp) viol("lmcut-above-optimum",S("LM-cut %d, optimal relaxed cost %lld: ",l,hp)+w); if(l>M) cnt("lmcut_above_max"); if(small&&l==hp&&l>0) cnt("lmcut_optimal");
          if(l>0&&cuts.empty()) viol("cuts-missing",w); for(auto&q:cuts){ cnt("cuts"); set<int> o(q.begin(),q.end()); if(val(fix(s,S0,false,&o),G,false)<INF){ string t; for(int y:q) t+=S("op%d ",y); viol("cut-avoidable","goal reachable without the cut "+t+": "+w); } } } }
      if(again){ cnt("re_evaluations"); Old&o=old[oi]; if(o.a!=a||o.f!=f||o.l!=l) viol("depends-on-history",S("values %d %d %d, before %d %d %d: ",a,f,l,o.a,o.f,o.l)+w); } else old.push_back({S0,G,a,f,l}); } }
  finish(); return 0; }
