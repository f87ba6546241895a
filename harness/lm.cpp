// H04, H05: landmarks and delete-relaxed reachability on search nodes of random walks, against their definitions.
#include "hcommon.hpp"
#include "heuristics/planningGraph.h"
#include "heuristics/landmarks/lmExtraction/LmCausal.h"
#include "heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.h"
using ref::VI;
struct Gr { int F,T,M; vector<VI> in; vector<char> isOr, base, present; }; // nodes: facts, tasks, methods
static Gr graph(const ref::Problem&p){ Gr g; g.F=p.nf; g.T=p.tname.size(); g.M=p.meth.size(); int n=g.F+g.T+g.M; g.in.resize(n); g.isOr.assign(n,0); g.base.assign(n,0); g.present.assign(n,1);
  for(int f=0;f<g.F;f++) g.isOr[f]=1;
  for(int t=0;t<g.T;t++){ if(p.isPrim(t)){ for(int f:p.act[t].prec) g.in[g.F+t].push_back(f); for(int f:p.act[t].add) g.in[f].push_back(g.F+t); } else g.isOr[g.F+t]=1; }
  for(int m=0;m<g.M;m++){ g.in[g.F+p.meth[m].task].push_back(g.F+g.T+m); for(int s:p.meth[m].subs) g.in[g.F+g.T+m].push_back(g.F+s); } return g; }
static vector<char> derive(const Gr&g,int without){ int n=g.in.size(); vector<char> d(n,0); bool ch=true; for(int i=0;i<g.F;i++) if(g.base[i]&&i!=without) d[i]=1;
  while(ch){ ch=false; for(int i=0;i<n;i++) if(!d[i]&&i!=without&&g.present[i]&&!(i<g.F&&g.base[i])){ bool ok=!g.isOr[i]; for(int j:g.in[i]){ if(g.isOr[i]){ if(d[j]) ok=true; } else if(!d[j]&&(g.present[j]||(j<g.F&&g.base[j])||true)) ok=false; } if(ok){ d[i]=1; ch=true; } } } return d; }
// the landmarks of every node: lm[v] = set of v's landmarks; underivable nodes have none recorded
struct Lms { vector<char> derivable; vector<set<int>> of; };
static Lms landmarks(const Gr&g){ Lms r; int n=g.in.size(); r.derivable=derive(g,-1); r.of.resize(n); for(int v=0;v<n;v++) if(r.derivable[v]) r.of[v].insert(v); for(int x=0;x<n;x++) if(r.derivable[x]){ vector<char> d=derive(g,x); for(int v=0;v<n;v++) if(r.derivable[v]&&!d[v]) r.of[v].insert(x); } return r; }
static string nm(const ref::Problem&p,const Gr&g,int v){ return v<g.F?S("fact %d",v):v<g.F+g.T?"task "+p.tname[v-g.F]:"method "+p.meth[v-g.F-g.T].name; }
static string diff(const ref::Problem&p,const Gr&g,const set<int>&want,const set<int>&got){ for(int x:want) if(!got.count(x)) return S("%zu expected, %zu reported; missing ",want.size(),got.size())+nm(p,g,x); for(int x:got) if(!want.count(x)) return S("%zu expected, %zu reported; not a landmark: ",want.size(),got.size())+nm(p,g,x); return "equal"; }
static set<int> collect(const Gr&g,landmark**l,int n,bool&bad){ set<int> r; for(int i=0;i<n;i++){ int v=l[i]->lm[0]+(l[i]->type==fact?0:l[i]->type==task?g.F:g.F+g.T); int hi=l[i]->type==fact?g.F:l[i]->type==task?g.T:g.M; if(l[i]->size!=1||l[i]->connection!=atom||l[i]->lm[0]<0||l[i]->lm[0]>=hi||!r.insert(v).second) bad=true; } return r; }
static void release(landmark**l,int n){ for(int i=0;i<n;i++) delete l[i]; delete[] l; }
int main(int c,char**v){ if(c<5) return 2; string mode=v[1]; Rng r(strtoull(v[3],0,10)); int steps=atoi(v[4]); srand(1); World w; load(w,v[2],true,mtrACTIONS,r.p(.5),r.p(.5)); const ref::Problem&p=w.p; string err; bool doLm=mode=="h04";
  Gr g0=graph(p); LmCausal*lc=doLm?new LmCausal(w.m):nullptr; planningGraph*pg=new planningGraph(w.m); vector<searchNode*> open{w.tni}; bool first=true;
  vector<vector<char>> reach(g0.T,vector<char>(g0.T,0)); for(int i=0;i<g0.T;i++) reach[i][i]=1; for(bool ch=true;ch;){ ch=false; for(auto&m:p.meth) for(int s:m.subs) for(int j=0;j<g0.T;j++) if(reach[s][j]&&!reach[m.task][j]) reach[m.task][j]=ch=1; }
  for(int it=0;it<steps&&!open.empty()&&NVIOL==0;it++){ int i=r(open.size()); searchNode*n=open[i]; open[i]=open.back(); open.pop_back(); Net N; if(!net(n,p.nf,N,err)) continue; cnt("nodes");
    set<int> tasks(N.t.task.begin(),N.t.task.end()), targets; for(int t:tasks) targets.insert(g0.F+t); for(int f:p.goal) targets.insert(f); Gr g=g0; for(int f=0;f<g.F;f++) g.base[f]=n->state[f];
    // the planning graph, restricted to a set of tasks
    set<int> allow; int kind=r(3); for(int t=0;t<g.T;t++){ bool td=false; for(int x:tasks) td|=reach[x][t]; if(kind==0?true:kind==1?td:(td&&!r.p(.15))) allow.insert(t); } noDelIntSet in; in.init(g.T); { vector<int> a(allow.begin(),allow.end()); shuffle(a.begin(),a.end(),r.g); for(int t:a) in.insert(t); }
    Gr ga=g; for(int t=0;t<g.T;t++) if(!allow.count(t)) ga.present[g.F+t]=0; for(int m=0;m<g.M;m++) if(!allow.count(p.meth[m].task)) ga.present[g.F+g.T+m]=0; vector<char> d=derive(ga,-1); vector<bool> st=n->state; pg->calcReachability(st,in);
    if(!doLm){ if(st!=n->state) viol("state-changed","the reachability analysis changed the state"); long no=0; for(int x=0;x<(int)d.size()&&!NVIOL;x++){ bool got=x<g.F?pg->factReachable(x):x<g.F+g.T?pg->taskReachable(x-g.F):pg->methodReachable(x-g.F-g.T); if(got!=(bool)d[x]) viol(got?"over-reachable":"under-reachable",nm(p,g,x)+(got?" is reported reachable but is not":" is reachable but not reported")); no+=!d[x]; } cnt("reachability_compared",d.size()); cnt("unreachable_nodes",no);
      set<int> useful; for(int f:p.goal) if(!g.base[f]) useful.insert(f); for(int t=0;t<g.T;t++) if(p.isPrim(t)&&d[g.F+t]) for(int f:p.act[t].prec) if(!g.base[f]) useful.insert(f); for(int f=0;f<g.F&&!NVIOL;f++) if((bool)useful.count(f)!=(bool)pg->usefulFactSet.get(f)) viol("useful",S("fact %d is %s useful",f,useful.count(f)?"":"not")); cnt("useful_facts",useful.size());
      set<int> rt,rm; bool dup=false; for(int x=pg->reachableTasksSet.getFirst();x>=0;x=pg->reachableTasksSet.getNext()) dup|=!rt.insert(x).second; for(int x=pg->reachableMethodsSet.getFirst();x>=0;x=pg->reachableMethodsSet.getNext()) dup|=!rm.insert(x).second; for(int t=0;t<g.T&&!NVIOL;t++) if((bool)d[g.F+t]!=(bool)rt.count(t)) viol("task-list","iterating over the reachable tasks disagrees with the membership of "+p.tname[t]); for(int m=0;m<g.M&&!NVIOL;m++) if((bool)d[g.F+g.T+m]!=(bool)rm.count(m)) viol("method-list","iterating over the reachable methods disagrees with the membership of "+p.meth[m].name); if(dup) viol("duplicate","an element is listed twice"); }
    else { bool usePg=r.p(.4); Gr h=g; bool skip=false; if(usePg){ for(int t=0;t<g.T;t++) h.present[g.F+t]=d[g.F+t]; for(int m=0;m<g.M;m++) h.present[g.F+g.T+m]=d[g.F+g.T+m]; for(int t:targets) if(!d[t]) skip=true; }
      if(!skip){ Lms L=landmarks(h); set<int> want; bool full=false; for(int t:targets){ if(!L.derivable[t]) full=true; want.insert(L.of[t].begin(),L.of[t].end()); }
        if(usePg){ set<int> w2; for(int x:want) if(x>=h.F||!h.base[x]||targets.count(x)) w2.insert(x); want=w2; }
        if(full){ want.clear(); for(size_t x=0;x<h.in.size();x++) want.insert(x); cnt("unreachable_targets"); }
        if(usePg) lc->calcLMs(n,pg); else lc->calcLMs(n); bool bad=false; set<int> got=collect(g,lc->getLMs(),lc->getNumLMs(),bad); if(bad) viol("malformed","a landmark is listed twice, out of range or not atomic"); if(want!=got) viol(usePg?"restricted":"causal",diff(p,g,want,got)); cnt(usePg?"restricted_comparisons":"causal_comparisons"); cnt("landmarks",want.size()); long nt=0; for(int x:want) if(!targets.count(x)&&!(x<h.F&&h.base[x])) nt++; if(!full) cnt("derived_landmarks",nt);
        for(int k=0;k<6&&!NVIOL;k++){ int x=r(h.in.size()); if(!L.derivable[x]||!h.present[x]||(usePg&&x<g.F&&!h.base[x]&&!pg->usefulFactSet.get(x))) continue; set<int> o=L.of[x]; if(usePg){ set<int> o2; for(int y:o) if(y>=h.F||!h.base[y]||y==x) o2.insert(y); o=o2; } if(x<g.F) lc->initIterFact(x); else if(x<g.F+g.T) lc->initIterTask(x-g.F); else lc->initIterMethod(x-g.F-g.T); set<int> q; int steps=0; while(lc->iterHasNext()&&steps++<100000){ lmType t=lc->iterGetLmType(); q.insert(lc->iterGetLm()+(t==fact?0:t==task?g.F:g.F+g.T)); lc->iterate(); } if(q!=o) viol("iterator","landmarks of "+nm(p,g,x)+": "+diff(p,g,o,q)); cnt("iterations"); }
        if(first&&!usePg&&!full&&!NVIOL){ LMsInAndOrGraphs ao(w.m); ao.generateAndOrLMs(n); bool b2=false; landmark**l=ao.getLMs(); int k=ao.getNumLMs(); set<int> q=collect(g,l,k,b2); if(b2||q!=want) viol("andor",diff(p,g,want,q)); release(l,k); cnt("andor_comparisons"); }
        release(lc->landmarks,lc->numLMs); lc->landmarks=nullptr; }
      if(!NVIOL&&r.p(.5)){ set<int> loc; VI todo(tasks.begin(),tasks.end()); set<int> seen; while(todo.size()){ int t=todo.back(); todo.pop_back(); if(!seen.insert(t).second||p.isPrim(t)) continue; bool f=true; set<int> common; for(auto&m:p.meth) if(m.task==t){ set<int> s(m.subs.begin(),m.subs.end()); if(f) common=s; else { set<int> k; for(int x:common) if(s.count(x)) k.insert(x); common=k; } f=false; } for(int x:common){ loc.insert(x); todo.push_back(x); } }
        LMsInAndOrGraphs ao(w.m); ao.generateLocalLMs(w.m,n); bool b2=false; landmark**l=ao.getLMs(); int k=ao.getNumLMs(); set<int> q=collect(g,l,k,b2), want; for(int t:loc) want.insert(g.F+t); if(b2||q!=want) viol("local",diff(p,g,want,q)); release(l,k); cnt("local_comparisons"); if(loc.size()) cnt("local_landmarks",loc.size()); } }
    first=false;
    vector<array<int,3>> mv; for(int a=0;a<n->numAbstract;a++) for(int m:p.t2m[n->unconstraintAbstract[a]->task]) if(N.t.task.size()+p.meth[m].subs.size()<=14) mv.push_back({1,a,m}); for(int a=0;a<n->numPrimitive;a++) if(w.m->isApplicable(n,n->unconstraintPrimitive[a]->task)) mv.push_back({0,a,-1}); shuffle(mv.begin(),mv.end(),r.g); if(mv.size()>4) mv.resize(4); for(auto&m:mv) open.push_back(m[0]?w.m->decompose(n,m[1],m[2]):w.m->apply(n,m[1])); if(open.size()>20) { for(size_t k=20;k<open.size();k++) delete open[k]; open.resize(20); } delete n; }
  finish(); return 0; }
