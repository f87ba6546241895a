// M03, M04, V01/V02, H01/H02: monitors over search nodes reached by random walks in the engine's own model.
#include "hcommon.hpp"
#include "VisitedList.h"
#include "heuristics/rcHeuristics/hhRC2.h"
#include "heuristics/rcHeuristics/hsAddFF.h"
#include "heuristics/rcHeuristics/hsLmCut.h"
#include "heuristics/rcHeuristics/hsFilter.h"
#include "heuristics/hhZero.h"
#include "heuristics/hhSimple.h"
using ref::St; using ref::TN; using ref::VI;

// everything observable of a node, by value (identifiers of steps, not addresses)
static string snap(const searchNode*n){ string r; for(bool b:n->state) r+=b?'1':'0'; r+=S("|%d %d %d %d %d|",n->modificationDepth,n->mixedModificationDepth,n->actionCosts,(int)n->goalReachable,n->numContainedTasks);
  for(int i=0;i<n->numContainedTasks;i++) r+=S("%d*%d ",n->containedTasks[i],n->containedTaskCount[i]); set<planStep*> seen;
  function<void(planStep*)> go=[&](planStep*x){ r+=S("(%d:%d",x->id,x->task); if(seen.insert(x).second){ r+=S("[%d,%d]",x->myPositionInParent,x->parentSolutionStepInstanceNumber); if(x->reachableT){ for(int i=0;i<x->numReachableT;i++) r+=S("r%d",x->reachableT[i]); } for(int i=0;i<x->numSuccessors;i++) go(x->successorList[i]); } r+=")"; };
  for(int i=0;i<n->numAbstract;i++) go(n->unconstraintAbstract[i]); r+="/"; for(int i=0;i<n->numPrimitive;i++) go(n->unconstraintPrimitive[i]); r+="/"; int k=0; for(solutionStep*s=n->solution;s&&k<60;s=s->prev,k++) r+=S("%d,%d,%d,%d,%d;",s->task,s->method,s->mySolutionStepInstanceNumber,s->myPositionInParent,s->parentSolutionStepInstanceNumber); return r; }
static vector<vector<char>> reachTask; // task -> tasks reachable in the hierarchy (including itself)
static void calcReach(const ref::Problem&p){ int n=p.tname.size(); reachTask.assign(n,vector<char>(n,0)); for(int i=0;i<n;i++) reachTask[i][i]=1; for(auto&m:p.meth) for(int s:m.subs) reachTask[m.task][s]=1; for(int k=0;k<n;k++) for(int i=0;i<n;i++) if(reachTask[i][k]) for(int j=0;j<n;j++) if(reachTask[k][j]) reachTask[i][j]=1; }

// invariants of a single node
static bool checkNode(World&w,const searchNode*n,const Net&N,const char*how){ const ref::Problem&p=w.p; bool ok=true; cnt("nodes_checked");
  vector<int> u; for(size_t i=0;i<N.ps.size();i++) if(!N.t.pred[i]) u.push_back(i); vector<int> v=N.unc; sort(v.begin(),v.end()); if(u!=v){ viol("unconstrained",S("%s: the unconstrained steps are not those without predecessors: ",how)+show(p,N.s,N.t)); ok=false; }
  for(int i=0;i<n->numAbstract;i++) if(p.isPrim(n->unconstraintAbstract[i]->task)) { viol("abstract-list",S("%s: primitive task in the list of abstract steps",how)); ok=false; }
  for(int i=0;i<n->numPrimitive;i++) if(!p.isPrim(n->unconstraintPrimitive[i]->task)) { viol("primitive-list",S("%s: abstract task in the list of primitive steps",how)); ok=false; }
  if(w.track){ map<int,int> c; for(int t:N.t.task) c[t]++; map<int,int> d; bool sorted=true; for(int i=0;i<n->numContainedTasks;i++){ d[n->containedTasks[i]]+=n->containedTaskCount[i]; if(i&&n->containedTasks[i-1]>=n->containedTasks[i]) sorted=false; } if(c!=d||!sorted){ string m; for(auto&x:d) m+=S(" %d*%d",x.first,x.second); viol("contained-tasks",S("%s: counted%s but the network is ",how,m.c_str())+show(p,N.s,N.t)); ok=false; } else cnt("task_counters_checked"); }
  if(w.reach!=mtrNO) for(size_t i=0;i<N.ps.size();i++){ planStep*x=N.ps[i]; if(!x->reachableT){ bool un=!N.t.pred[i]; if(un){ viol("no-reachability",S("%s: unconstrained step without reachability",how)); ok=false; } continue; } set<int> got(x->reachableT,x->reachableT+x->numReachableT), want; for(size_t j=0;j<N.ps.size();j++) if(j==i||(N.t.pred[j]>>i&1)) for(size_t t=0;t<p.tname.size();t++) if(reachTask[N.t.task[j]][t]&&(w.reach==mtrALL||p.isPrim(t))) want.insert(t); set<int> g2; for(int t:got) if(w.reach==mtrALL||p.isPrim(t)) g2.insert(t); if(g2!=want){ viol("reachability",S("%s: step %zu: %zu tasks reachable, %zu recorded ",how,i,want.size(),g2.size())+show(p,N.s,N.t)); ok=false; } else cnt("step_reachability_checked"); }
  return ok; }
typedef pair<St,TN> Cand;
static bool effless(const ref::Problem&p,int a){ return p.act[a].add.empty()&&p.act[a].del.empty(); }
static int lastStepsApplied=0;
// child against the reference: the first step is (k-th step of the parent, method or -1), the others are implicit
static bool checkChild(World&w,const searchNode*n,const Net&N,int k,int method,const searchNode*c,Net&C,bool allowEff,bool allowOne){ const ref::Problem&p=w.p; string how=method<0?"apply "+p.tname[N.t.task[k]]:"decompose "+p.tname[N.t.task[k]]+" with "+p.meth[method].name; string err; if(!net(c,p.nf,C,err)){ if(err=="too large") return false; viol("malformed",how+": "+err); return false; }
  vector<solutionStep*> chain; solutionStep*s=c->solution; while(s&&s!=n->solution&&chain.size()<200){ chain.push_back(s); s=s->prev; } if(s!=n->solution||chain.empty()){ viol("history",how+": the child's history does not continue the parent's"); return false; } reverse(chain.begin(),chain.end());
  if(chain[0]->task!=N.t.task[k]||chain[0]->method!=method){ viol("history",how+S(": recorded as task %d method %d",chain[0]->task,chain[0]->method)); return false; }
  if(chain[0]->myPositionInParent!=N.ps[k]->myPositionInParent||chain[0]->parentSolutionStepInstanceNumber!=N.ps[k]->parentSolutionStepInstanceNumber){ viol("history",how+": recorded with another parent or position"); return false; }
  vector<Cand> cs; long cost=0; long mixed=0; if(method<0){ cs.push_back({ref::succ(p,N.s,N.t.task[k]),ref::removeNode(N.t,k)}); cost+=p.act[N.t.task[k]].cost; mixed+=p.act[N.t.task[k]].cost; } else { cs.push_back({N.s,ref::decompose(p,N.t,k,p.meth[method])}); mixed++; }
  for(size_t j=1;j<chain.size();j++){ int a=chain[j]->task; cnt("implicit_applications"); if(chain[j]->method>=0||!p.isPrim(a)){ viol("implicit",how+": implicit decomposition"); return false; } cost+=p.act[a].cost; mixed+=p.act[a].cost; vector<Cand> nx; for(auto&x:cs){ bool anyAbs=false; int appl=0; for(size_t i=0;i<x.second.task.size();i++){ int t=x.second.task[i]; if(x.second.pred[i]) continue; if(!p.isPrim(t)) anyAbs=true; else if(ref::appl(p,x.first,t)) appl++; }
      bool may=(allowEff&&effless(p,a))||(allowOne&&!anyAbs&&appl==1); if(!may||!ref::appl(p,x.first,a)) continue; for(size_t i=0;i<x.second.task.size();i++) if(x.second.task[i]==a&&!x.second.pred[i]){ Cand y{ref::succ(p,x.first,a),ref::removeNode(x.second,i)}; bool dup=false; for(auto&z:nx) if(z.first==y.first&&iso(z.second,y.second)) dup=true; if(!dup) nx.push_back(y); } } cs=nx; if(cs.empty()){ viol("implicit",how+": implicitly applied "+p.tname[a]+" which was not executable, or not the only possible step"); return false; } }
  lastStepsApplied=chain.size(); bool found=false; for(auto&x:cs) if(x.first==C.s&&iso(x.second,C.t)) found=true; if(!found){ viol("successor",how+": expected "+show(p,cs[0].first,cs[0].second)+" but got "+show(p,C.s,C.t)); return false; }
  if(c->actionCosts!=n->actionCosts+cost){ viol("cost",how+S(": cost %d, expected %ld",c->actionCosts,n->actionCosts+cost)); return false; }
  if(c->modificationDepth!=n->modificationDepth+(int)chain.size()||c->mixedModificationDepth!=n->mixedModificationDepth+mixed){ viol("depth",how+": wrong number of modifications or mixed cost"); return false; }
  if(!c->goalReachable){ bool dead=!C.t.task.empty(); for(size_t i=0;i<C.t.task.size();i++) if(!C.t.pred[i]&&(!p.isPrim(C.t.task[i])||ref::appl(p,C.s,C.t.task[i]))) dead=false; if(!dead&&n->goalReachable){ viol("dead-end",how+": marked as dead end: "+show(p,C.s,C.t)); return false; } cnt("dead_ends"); }
  bool g=C.t.task.empty()&&(C.s&ref::mask(p.goal))==ref::mask(p.goal); if(w.m->isGoal((searchNode*)c)!=g){ viol("goal",how+": goal test is wrong for "+show(p,C.s,C.t)); return false; }
  cnt(method<0?"applications":"decompositions"); return true; }
struct Walk { World&w; Rng&r; vector<searchNode*> open; int limit; Walk(World&w,Rng&r,int l):w(w),r(r),limit(l){} };
static int m03(const string&file,uint64_t seed,int steps){ Rng r(seed); World w; bool eff=r.p(.5),one=r.p(.5); load(w,file,r.p(.7),(eMaintainTaskReachability)r(3),eff,one); calcReach(w.p); const ref::Problem&p=w.p; string err; Net N; if(!net(w.tni,p.nf,N,err)){ viol("initial",err); finish(); return 0; }
  if(N.t.task.size()!=1||N.t.task[0]!=p.init||N.s!=ref::mask(p.s0)) viol("initial","initial search node is "+show(p,N.s,N.t)); checkNode(w,w.tni,N,"initial node");
  vector<searchNode*> open{w.tni}; vector<pair<searchNode*,string>> kept;
  for(int it=0;it<steps&&!open.empty()&&NVIOL==0;it++){ int i=r(open.size()); searchNode*n=open[i]; open[i]=open.back(); open.pop_back(); Net N; if(!net(n,p.nf,N,err)){ if(err!="too large") viol("malformed",err); continue; }
    string before=snap(n); vector<pair<searchNode*,string>> ch; set<string> kinds;
    vector<array<int,3>> moves; for(int a=0;a<n->numAbstract;a++) for(int m:p.t2m[n->unconstraintAbstract[a]->task]) moves.push_back({1,a,m}); for(int a=0;a<n->numPrimitive;a++) if(ref::appl(p,N.s,n->unconstraintPrimitive[a]->task)) moves.push_back({0,a,-1});
    for(int a=0;a<n->numPrimitive;a++) if(w.m->isApplicable(n,n->unconstraintPrimitive[a]->task)!=ref::appl(p,N.s,n->unconstraintPrimitive[a]->task)) viol("applicable","applicability of "+p.tname[n->unconstraintPrimitive[a]->task]+" in "+show(p,N.s,N.t));
    shuffle(moves.begin(),moves.end(),r.g); if(moves.size()>14) moves.resize(14);
    for(auto&mv:moves){ planStep*ps=mv[0]?n->unconstraintAbstract[mv[1]]:n->unconstraintPrimitive[mv[1]]; int k=find(N.ps.begin(),N.ps.end(),ps)-N.ps.begin(); size_t extra=mv[0]?p.meth[mv[2]].subs.size():0; if(N.t.task.size()+extra>16) continue; searchNode*c=mv[0]?w.m->decompose(n,mv[1],mv[2]):w.m->apply(n,mv[1]); Net C; if(checkChild(w,n,N,k,mv[2],c,C,eff,one)) checkNode(w,c,C,"successor"); ch.push_back({c,snap(c)}); if(NVIOL) break; }
    if(snap(n)!=before) viol("parent-changed","expanding changed the expanded node: "+show(p,N.s,N.t)); for(auto&c:ch) if(snap(c.first)!=c.second) viol("sibling-changed","a sibling changed another successor of "+show(p,N.s,N.t)); if(!ch.empty()) cnt("sibling_groups");
    for(auto&k:kept) if(snap(k.first)!=k.second){ viol("other-node-changed","a node still waiting was changed by expanding "+show(p,N.s,N.t)); break; }
    for(auto&c:ch){ if(open.size()<40||r.p(.3)) { open.push_back(c.first); if(kept.size()<60) kept.push_back(c); } else { delete c.first; } }
    vector<pair<searchNode*,string>> k2; for(auto&k:kept) if(k.first!=n) k2.push_back(k); kept=k2; delete n; cnt("expansions"); }
  for(auto&k:kept) if(snap(k.first)!=k.second) viol("other-node-changed","a node changed while others were deleted"); finish(); return 0; }

// ------------------------------------------------------------------ visited list
static int visi(const string&file,uint64_t seed,int steps,bool exactOnly){ Rng r(seed); World w; bool eff=r.p(.6); load(w,file,true,mtrACTIONS,eff,eff); const ref::Problem&p=w.p; calcReach(p);
  bool to=true,seqTop=true; for(auto&m:p.meth){ TN t; int k=m.subs.size(); for(int s:m.subs){ t.task.push_back(s); t.pred.push_back(0); t.depth.push_back(0);} for(auto&o:m.ord) t.pred[o.second]|=1u<<o.first; ref::closeTN(t); bool tot=true; for(int i=0;i<k;i++) for(int j=0;j<i;j++) if(!(t.pred[i]>>j&1)&&!(t.pred[j]>>i&1)) tot=false; if(!tot) to=false; if(!tot){ if(m.task!=p.init) seqTop=false; else for(int i=0;i<k;i++) for(int j=0;j<k;j++) for(int l=0;l<k;l++) if((t.pred[i]>>j&1)&&(t.pred[i]>>l&1)&&j!=l&&!(t.pred[j]>>l&1)&&!(t.pred[l]>>j&1)) seqTop=false; else if((t.pred[j]>>i&1)&&(t.pred[l]>>i&1)&&j!=l&&!(t.pred[j]>>l&1)&&!(t.pred[l]>>j&1)) seqTop=false; } }
  // options: exact combinations only
  bool noReopen=r.p(.5), taskHash=r.p(.5), seqHash=r.p(.5), topo=r.p(.5), pairs=r.p(.5), layers=r.p(.5), gi=true, par=r.p(.7); bool seqMode=to||(seqTop&&par);
  bool exactHit; if(seqMode){ topo=true; gi=r.p(.5); exactHit=true; } else { if(r.p(.4)){ seqHash=topo=layers=pairs=false; } exactHit=!seqHash&&!topo&&!layers&&!pairs; }
  VisitedList v(w.m,false,noReopen,taskHash,seqHash,topo,pairs,layers,gi,par); string opt=S("options reopen=%d task=%d seq=%d topo=%d pairs=%d layers=%d gi=%d par=%d to=%d",!noReopen,taskHash,seqHash,topo,pairs,layers,gi,par,to);
  if(to) cnt("total_order_runs"); else if(seqMode) cnt("sequences_runs"); else cnt("partial_order_runs");
  struct E { St s; TN t; int f; }; unordered_map<string,vector<E>> acc; string err; vector<searchNode*> open{w.tni};
  auto keyOf=[&](const Net&N){ vector<int> t=N.t.task; sort(t.begin(),t.end()); string k((char*)&N.s,sizeof N.s); for(int x:t) k.append((char*)&x,4); return k; };
  auto insert=[&](searchNode*n)->bool{ Net N; if(!net(n,p.nf,N,err)) return true; n->fValue=r.p(.1)?-1+r(3):r.p(.5)?n->actionCosts:r(4); auto&L=acc[keyOf(N)]; E*hit=nullptr; for(auto&e:L) if(e.s==N.s&&iso(e.t,N.t)) { hit=&e; break; } bool a=v.insertVisi(n); cnt("insertions"); bool cheaper=hit&&!noReopen&&n->fValue<hit->f; string d=opt+" node f="+to_string(n->fValue)+" "+show(p,N.s,N.t);
    if(!a){ cnt("rejected"); if(!hit) viol("merged","rejected although no equivalent node was inserted: "+d); else if(cheaper) viol("cheaper-rejected",S("rejected although the earlier one had f=%d: ",hit->f)+d); }
    else { cnt("accepted"); if(hit&&!cheaper&&exactHit) viol("missed",S("accepted although an equivalent node was inserted (f=%d): ",hit->f)+d); if(hit&&cheaper) cnt("reopened"); }
    if(a){ if(hit) hit->f=noReopen?hit->f:min(hit->f,n->fValue); else L.push_back({N.s,N.t,n->fValue}); } if(hit) cnt("revisits"); return a; };
  insert(w.tni);
  // random walks revisit nodes along different routes
  for(int it=0;it<steps&&!open.empty()&&NVIOL==0;it++){ searchNode*n=open[r(open.size())]; if(n->numAbstract+n->numPrimitive==0||open.size()>160){ int i=r(open.size()); if(open[i]!=w.tni&&open.size()>1){ open[i]=open.back(); open.pop_back(); } continue; } Net N; if(!net(n,p.nf,N,err)||N.t.task.size()>12) continue; searchNode*c=nullptr;
    int tot=n->numAbstract+n->numPrimitive; int k=r(tot); if(k<n->numAbstract){ auto&ms=p.t2m[n->unconstraintAbstract[k]->task]; if(ms.empty()) continue; c=w.m->decompose(n,k,ms[r(ms.size())]); } else { k-=n->numAbstract; if(!w.m->isApplicable(n,n->unconstraintPrimitive[k]->task)) continue; c=w.m->apply(n,k); }
    insert(c); open.push_back(c); }
  finish(); return 0; }

// ------------------------------------------------------------------ heuristics
static int heur(const string&file,uint64_t seed,int steps,bool admOnly){ Rng r(seed); World w; load(w,file,true,mtrACTIONS,true,true); const ref::Problem&p=w.p; for(long x:ref::minCosts(p)) if(x>=LONG_MAX/4){ cnt("problems_with_tasks_that_never_end"); finish(); return 0; } vector<Heuristic*> hs; vector<string> nm; vector<bool> adm; int idx=0;
  auto add=[&](Heuristic*h,const string&n,bool a){ hs.push_back(h); nm.push_back(n); adm.push_back(a); idx++; };
  if(admOnly){ add(new hhRC2<hsLmCut>(w.m,idx,estCOSTS,true),"lmc cost",true); add(new hhRC2<hsLmCut>(w.m,idx,estCOSTS,false),"lmc cost no",true); add(new hhZero(w.m,idx),"zero",true); }
  else { eEstimate es[]={estDISTANCE,estCOSTS,estMIXED}; for(int k=0;k<4;k++){ eEstimate e=es[r(3)]; bool tc=r.p(.5); string s=S(" est=%d count=%d",(int)e,(int)tc); if(k==0) add(new hhRC2<hsLmCut>(w.m,idx,e,tc),"lmc"+s,false); if(k==1){ auto*h=new hhRC2<hsAddFF>(w.m,idx,e,tc); h->sasH->heuristic=sasAdd; add(h,"add"+s,false);} if(k==2){ auto*h=new hhRC2<hsAddFF>(w.m,idx,e,tc); h->sasH->heuristic=sasFF; add(h,"ff"+s,false);} if(k==3) add(new hhRC2<hsFilter>(w.m,idx,e,tc),"filter"+s,false); } add(new hhZero(w.m,idx),"zero",false); add(new hhModDepth(w.m,idx,r.p(.5)),"modDepth",false); add(new hhMixedModDepth(w.m,idx,r.p(.5)),"mixedModDepth",false); add(new hhCost(w.m,idx,r.p(.5)),"cost",false); }
  vector<searchNode*> open{w.tni}; string err; map<searchNode*,vector<int>> vals; vector<searchNode*> evald; map<string,ref::Result> memo;
  for(int it=0;it<steps&&!open.empty()&&NVIOL==0;it++){ int oi=r(open.size()); searchNode*n=open[oi]; Net N; if(!net(n,p.nf,N,err)||N.t.task.size()>8){ open[oi]=open.back(); open.pop_back(); continue; }
    vector<array<int,3>> moves; if(n->numAbstract==0||r.p(.15)) for(int a=0;a<n->numPrimitive;a++) if(ref::appl(p,N.s,n->unconstraintPrimitive[a]->task)) moves.push_back({0,a,-1}); for(int a=0;a<n->numAbstract;a++) for(int m:p.t2m[n->unconstraintAbstract[a]->task]) moves.push_back({1,a,m}); if(moves.empty()){ open[oi]=open.back(); open.pop_back(); continue; } auto mv=moves[r(moves.size())];
    searchNode*c=mv[0]?w.m->decompose(n,mv[1],mv[2]):w.m->apply(n,mv[1]); Net C; if(!net(c,p.nf,C,err)||C.t.task.size()>8) continue; bool engineDead=!c->goalReachable;
    TN t=C.t; string key=ref::key(C.s,t,false); auto mi=memo.find(key); ref::Result res; if(mi!=memo.end()) res=mi->second; else { ref::Opt o; o.maxNodes=3000; o.maxSize=10; o.haveStart=true; o.startState=C.s; o.startTN=C.t; res=ref::solve(p,o); memo[key]=res; }
    if(engineDead){ cnt("pruned_by_progression"); if(res.status==1) viol("progression-prunes","progression marks a solvable node as dead end: "+show(p,C.s,C.t)); continue; }
    c->heuristicValue=new int[idx]; vector<int> ord(idx); for(int i=0;i<idx;i++) ord[i]=i; shuffle(ord.begin(),ord.end(),r.g); vector<int> val(idx); bool dead=false;
    for(int i:ord){ c->goalReachable=true; c->heuristicValue[i]=-12345; if(mv[0]) hs[i]->setHeuristicValue(c,n,mv[1],mv[2]); else hs[i]->setHeuristicValue(c,n,n->unconstraintPrimitive[mv[1]]->task); val[i]=c->heuristicValue[i]; cnt("evaluations"); bool un=!c->goalReachable; if(un) dead=true;
      if(un){ cnt("declared_dead_ends"); if(res.status==1) viol("unsafe","heuristic "+nm[i]+" declares a solvable node unreachable: "+show(p,C.s,C.t)); else if(res.status==0) cnt("dead_ends_confirmed"); } else if(val[i]==UNREACHABLE) viol("flag","heuristic "+nm[i]+" returns unreachable without marking the node");
      if(adm[i]&&!un){ if(val[i]<0) viol("negative",nm[i]+S(": value %d",val[i])); if(res.status==1&&res.costExact){ cnt("admissibility_comparisons"); if(val[i]>0) cnt("positive_estimates"); if(val[i]==res.cost) cnt("exact_estimates"); if(val[i]>res.cost) viol("overestimate",nm[i]+S(": %d, cheapest completion costs %ld: ",val[i],res.cost)+show(p,C.s,C.t)); } } }
    c->goalReachable=true; // same node again, after other evaluations
    if(!evald.empty()&&r.p(.6)){ searchNode*e=evald[r(evald.size())]; int i=r(idx); e->goalReachable=true; hs[i]->setHeuristicValue(e,w.tni,0); cnt("re_evaluations"); if(e->heuristicValue[i]!=vals[e][i]) viol("history-dependent",nm[i]+S(": %d at first, %d later",vals[e][i],e->heuristicValue[i])); e->goalReachable=true; }
    vals[c]=val; evald.push_back(c); if(res.status==1) cnt("solvable_nodes"); if(res.status==0) cnt("unsolvable_nodes"); if(open.size()<60&&(!dead||r.p(.2))) open.push_back(c); }
  finish(); return 0; }

// ------------------------------------------------------------------ structural analyses
static int m04(const string&file,uint64_t seed){ Rng r(seed); World w; load(w,file,r.p(.5),r.p(.5)?mtrACTIONS:mtrALL,true,true); Model*m=w.m; const ref::Problem&p=w.p; int n=p.tname.size(); calcReach(p); m->constructSCCGraph(); m->analyseSCCcyclicity();
  auto R=[&](int a,int b){ return (bool)reachTask[a][b]; }; vector<vector<char>> dir(n,vector<char>(n,0)); for(auto&me:p.meth) for(int s:me.subs) dir[me.task][s]=1;
  int classes=0; vector<int> cls(n,-1); for(int i=0;i<n;i++) if(cls[i]<0){ for(int j=i;j<n;j++) if(R(i,j)&&R(j,i)) cls[j]=classes; classes++; }
  if(m->numSCCs!=classes) viol("scc-count",S("%d components, %d reported",classes,m->numSCCs)); else { int maxs=0,cyc=0,self=0;
    for(int i=0;i<n;i++) for(int j=0;j<n;j++) if((m->taskToSCC[i]==m->taskToSCC[j])!=(cls[i]==cls[j])) { viol("scc",S("tasks %d and %d",i,j)); i=n; break; }
    for(int c=0;c<m->numSCCs&&!NVIOL;c++){ set<int> members(m->sccToTasks[c],m->sccToTasks[c]+m->sccSize[c]); set<int> want; for(int i=0;i<n;i++) if(m->taskToSCC[i]==c) want.insert(i); if(members!=want) viol("scc-members",S("component %d",c)); maxs=max(maxs,(int)want.size()); bool sl=want.size()==1&&dir[*want.begin()][*want.begin()]; if(want.size()>1||sl) cyc++; if(sl) self++; bool ac=true; for(int j=0;j<n;j++) if(R(*want.begin(),j)) for(int x=0;x<n;x++) if(dir[j][x]&&R(x,j)) ac=false; if(m->sccIsAcyclic[c]!=ac) viol("scc-cyclic",S("component %d acyclic=%d",c,(int)m->sccIsAcyclic[c]));
      set<int> su,pr,ws,wp; for(int k=0;k<m->sccGnumSucc[c];k++) su.insert(m->sccG[c][k]); for(int k=0;k<m->sccGnumPred[c];k++) pr.insert(m->sccGinverse[c][k]); for(int a=0;a<n;a++) for(int b=0;b<n;b++) if(dir[a][b]&&m->taskToSCC[a]!=m->taskToSCC[b]){ if(m->taskToSCC[a]==c) ws.insert(m->taskToSCC[b]); if(m->taskToSCC[b]==c) wp.insert(m->taskToSCC[a]); } if(su!=ws||pr!=wp) viol("scc-graph",S("component %d",c)); }
    if(m->numCyclicSccs!=cyc) viol("scc-cyclic",S("%d cyclic components, %d reported",cyc,m->numCyclicSccs)); if(m->sccMaxSize!=maxs) viol("scc-max",S("largest %d, reported %d",maxs,m->sccMaxSize)); if(m->numSccOneWithSelfLoops!=self) viol("scc-self",S("%d self loops, %d reported",self,m->numSccOneWithSelfLoops));
    if(m->sccTopOrder){ vector<int> pos(classes,-1); for(int k=0;k<classes;k++) if(m->sccTopOrder[k]>=0&&m->sccTopOrder[k]<classes) pos[m->sccTopOrder[k]]=k; bool bad=false; for(int k:pos) if(k<0) bad=true; int fw=0,bw=0; for(int a=0;a<n;a++) for(int b=0;b<n;b++) if(dir[a][b]&&m->taskToSCC[a]!=m->taskToSCC[b]) (pos[m->taskToSCC[a]]<pos[m->taskToSCC[b]]?fw:bw)++; if(bad||fw) viol("scc-order",S("%d edges forwards, %d backwards",fw,bw)); else cnt("top_order_edges",bw); }
    cnt("scc_checks"); if(cyc) cnt("cyclic_problems"); else cnt("acyclic_problems"); }
  if(m->reachable) for(int i=0;i<n;i++){ set<int> g(m->reachable[i],m->reachable[i]+m->numReachable[i]),wnt; for(int j=0;j<n;j++) if(R(i,j)) wnt.insert(j); set<int> g2,w2; for(int t:g) if(w.reach==mtrALL||p.isPrim(t)) g2.insert(t); for(int t:wnt) if(w.reach==mtrALL||p.isPrim(t)) w2.insert(t); if(g2!=w2) { viol("reachable",S("task %s: %zu reachable, %zu reported",p.tname[i].c_str(),w2.size(),g2.size())); break; } cnt("reachability_sets"); }
  const long INF=LONG_MAX/4; vector<long> c=ref::minCosts(p),d(n,INF); bool prod=true; for(long x:c) if(x>=INF) prod=false; if(prod) m->calcMinimalImpliedX(); else cnt("problems_with_tasks_that_never_end"); for(size_t a=0;a<p.act.size();a++) d[a]=1; bool chg=true; while(chg){ chg=false; for(auto&me:p.meth){ long s=1; for(int t:me.subs) s=min(INF,s+d[t]); if(s<d[me.task]){ d[me.task]=s; chg=true; } } }
  bool acyc=m->numCyclicSccs==0, empty=false; for(auto&me:p.meth) if(me.subs.empty()) empty=true;
  for(int i=0;i<n&&prod;i++){ if(m->minEstimatedCosts[i]>c[i]||m->minEstimatedCosts[i]<0||(acyc&&!empty&&m->minEstimatedCosts[i]!=c[i])) viol("min-cost",S("task %s: minimum %ld, reported %d",p.tname[i].c_str(),c[i],m->minEstimatedCosts[i])); if(m->minImpliedDistance[i]>d[i]||m->minImpliedDistance[i]<0||(acyc&&!empty&&m->minImpliedDistance[i]!=d[i])) viol("min-distance",S("task %s: minimum %ld, reported %d",p.tname[i].c_str(),d[i],m->minImpliedDistance[i])); cnt("min_values"); }
  // ordering classification
  bool to=true,par=true; for(auto&me:p.meth){ int k=me.subs.size(); TN t; t.task.assign(k,0); t.pred.assign(k,0); t.depth.assign(k,0); for(auto&o:me.ord) t.pred[o.second]|=1u<<o.first; ref::closeTN(t); auto L=[&](int a,int b){ return (bool)(t.pred[b]>>a&1); }; auto un=[&](int a,int b){ return a!=b&&!L(a,b)&&!L(b,a); }; bool tot=true,seqs=true; for(int a=0;a<k;a++) for(int b=0;b<k;b++){ if(un(a,b)) tot=false; for(int x=0;x<k;x++) if(un(a,b)&&((L(x,a)&&L(x,b))||(L(a,x)&&L(b,x)))) seqs=false; } if(!tot){ to=false; if(me.task!=p.init||!seqs) par=false; } int q=&me-&p.meth[0]; if(m->isMethodTotallyOrdered(q)!=tot) viol("method-total",S("method %s: %d",me.name.c_str(),(int)tot)); }
  if(m->isTotallyOrdered!=to) viol("class-total",S("totally ordered: %d, reported %d",to,(int)m->isTotallyOrdered)); if(m->isParallelSequences!=par) viol("class-sequences",S("parallel sequences: %d, reported %d",par,(int)m->isParallelSequences)); cnt(to?"total_order":par?"parallel_sequences":"partial_order"); finish(); return 0; }
// ------------------------------------------------------------------ the model against the file
static int m01(const string&file,uint64_t seed){ Rng r(seed); World w; load(w,file,r.p(.5),mtrNO,true,true); Model*m=w.m; const ref::Problem&p=w.p; long items=0;
  auto V=[](const int*a,int n){ return vector<int>(a,a+n); }; auto So=[](vector<int> v){ sort(v.begin(),v.end()); return v; }; auto eq=[&](const char*what,int i,vector<int> a,vector<int> b){ items+=a.size()+1; if(So(a)!=So(b)){ string x,y; for(int q:So(a)) x+=S(" %d",q); for(int q:So(b)) y+=S(" %d",q); viol(what,S("%s %d: the file has%s, the model%s",what,i,x.c_str(),y.c_str())); } }; auto num=[&](const char*what,long i,long a,long b){ items++; if(a!=b) viol(what,S("%s %ld: the file has %ld, the model %ld",what,i,a,b)); };
  num("number of facts",0,p.nf,m->numStateBits); num("number of variables",0,p.nv,m->numVars); num("number of actions",0,p.act.size(),m->numActions); num("number of tasks",0,p.tname.size(),m->numTasks); num("number of methods",0,p.meth.size(),m->numMethods); if(NVIOL) return 0;
  for(int i=0;i<p.nf;i++) if(m->factStrs[i]!=p.facts[i]) viol("fact name",p.facts[i]+" read as "+m->factStrs[i]);
  for(int i=0;i<p.nv;i++){ num("first fact of variable",i,p.first[i],m->firstIndex[i]); num("last fact of variable",i,p.last[i],m->lastIndex[i]); for(int f=p.first[i];f<=p.last[i];f++) num("variable of fact",f,i,m->varOfStateBit[f]); }
  auto groups=[&](const char*what,const vector<ref::VI>&a,int n,int**e,int*z,bool neg){ num(what,-1,a.size(),n); if(NVIOL) return; for(int i=0;i<n;i++){ ref::VI v; for(int x:a[i]) v.push_back(neg&&x<-1?x+1:x); eq(what,i,v,V(e[i],z[i])); if(a[i].size()) cnt(neg?"invariants_compared":"mutex_groups_compared"); } };
  groups("strict mutex group",p.strict,m->numStrictMutexes,m->strictMutexes,m->strictMutexesSize,false); groups("mutex group",p.mutex,m->numMutexes,m->mutexes,m->mutexesSize,false); groups("invariant",p.inv,m->numInvariants,m->invariants,m->invariantsSize,true); if(NVIOL) return 0;
  vector<set<int>> pre(p.nf),add(p.nf),del(p.nf); set<int> less;
  for(int i=0;i<m->numActions;i++){ auto&a=p.act[i]; num("cost of action",i,a.cost,m->actionCosts[i]); eq("precondition of action",i,a.prec,V(m->precLists[i],m->numPrecs[i])); eq("add effects of action",i,a.add,V(m->addLists[i],m->numAdds[i])); ref::VI dl; for(int f:a.del) if(find(a.add.begin(),a.add.end(),f)==a.add.end()) dl.push_back(f); else cnt("deleted_and_added"); eq("delete effects of action",i,dl,V(m->delLists[i],m->numDels[i])); for(int f:a.prec) pre[f].insert(i); for(int f:a.add) add[f].insert(i); for(int f:dl) del[f].insert(i); if(a.prec.empty()) less.insert(i); }
  auto idx=[&](const char*what,int i,const set<int>&s,const int*a,int n){ cnt("index_entries",n); eq(what,i,vector<int>(s.begin(),s.end()),V(a,n)); };
  for(int f=0;f<p.nf;f++){ idx("actions with precondition",f,pre[f],m->precToAction[f],m->precToActionSize[f]); idx("actions adding",f,add[f],m->addToAction[f],m->addToActionSize[f]); idx("actions deleting",f,del[f],m->delToAction[f],m->delToActionSize[f]); }
  idx("actions without precondition",0,less,m->precLessActions,m->numPrecLessActions); eq("initial state",0,p.s0,V(m->s0List,m->s0Size)); eq("goal",0,p.goal,V(m->gList,m->gSize)); num("initial task",0,p.init,m->initialTask); if(!m->isHtnModel) viol("kind","read as a problem without hierarchy");
  vector<set<int>> occ(p.tname.size()); vector<vector<int>> me(p.tname.size());
  for(size_t i=0;i<p.tname.size();i++){ if(m->taskNames[i]!=p.tname[i]) viol("task name",p.tname[i]+" read as "+m->taskNames[i]); num("primitivity of task",i,!p.abst[i],m->isPrimitive[i]); }
  for(size_t q=0;q<p.meth.size();q++){ auto&x=p.meth[q]; if(m->methodNames[q]!=x.name) viol("method name",x.name+" read as "+m->methodNames[q]); num("task of method",q,x.task,m->decomposedTask[q]); me[x.task].push_back(q); int k=x.subs.size(); num("number of subtasks",q,k,m->numSubTasks[q]); if(NVIOL) return 0; for(int j=0;j<k;j++) num("subtask of method",q,x.subs[j],m->subTasks[q][j]); for(int s:x.subs) occ[s].insert(q);
    TN a,b; a.task.assign(k,0); a.pred.assign(k,0); a.depth.assign(k,0); b=a; for(auto&o:x.ord) a.pred[o.second]|=1u<<o.first; if(m->numOrderings[q]%2) { viol("orderings",S("method %zu",q)); return 0; } for(int o=0;o<m->numOrderings[q];o+=2){ int u=m->ordering[q][o],v=m->ordering[q][o+1]; if(u<0||v<0||u>=k||v>=k){ viol("orderings",S("method %zu orders subtask %d before %d",q,u,v)); return 0; } b.pred[v]|=1u<<u; } TN b0=b; ref::closeTN(a); ref::closeTN(b); cnt("orderings_compared",m->numOrderings[q]/2); if(a.pred!=b.pred) viol("orderings",S("method %zu",q));
    // first and last steps and successors
    vector<int> fi,la; int fp=0,fa=0; for(int j=0;j<k;j++){ if(!a.pred[j]){ fi.push_back(j); (p.isPrim(x.subs[j])?fp:fa)++; } bool last=true; int sc=0; for(int l=0;l<k;l++){ if(a.pred[l]>>j&1) last=false; if(b0.pred[l]>>j&1) sc++; } if(last) la.push_back(j); num("number of successors",j,sc,m->methodSubtaskSuccNum[q][j]); }
    eq("first subtasks",q,fi,V(m->methodsFirstTasks[q],m->numFirstTasks[q])); eq("last subtasks",q,la,V(m->methodsLastTasks[q],m->numLastTasks[q])); num("first primitive subtasks",q,fp,m->numFirstPrimSubTasks[q]); num("first abstract subtasks",q,fa,m->numFirstAbstractSubTasks[q]);
    map<int,int> c; for(int s:x.subs) c[s]++; num("distinct subtasks",q,c.size(),m->numDistinctSTs[q]); int j=0; if(!NVIOL) for(auto&e:c){ num("distinct subtask",j,e.first,m->sortedDistinctSubtasks[q][j]); num("multiplicity of subtask",j,e.second,m->sortedDistinctSubtaskCount[q][j]); j++; } }
  for(size_t t=0;t<p.tname.size();t++){ eq("methods of task",t,me[t],V(m->taskToMethods[t],m->numMethodsForTask[t])); idx("methods containing task",t,occ[t],m->stToMethod[t],m->stToMethodNum[t]); }
  // structures of the SAT planner
  m->buildOrderingDatastructures(); for(size_t q=0;q<p.meth.size();q++){ auto&x=p.meth[q]; int k=x.subs.size(); TN a; a.task.assign(k,0); a.pred.assign(k,0); a.depth.assign(k,0); for(auto&o:x.ord) a.pred[o.second]|=1u<<o.first; ref::closeTN(a); if(m->methodTotalOrder[q]){ vector<int> o=V(m->methodTotalOrder[q],k),pos(k,-1); bool bad=false; for(int j=0;j<k;j++){ if(o[j]<0||o[j]>=k||pos[o[j]]>=0) { bad=true; break; } pos[o[j]]=j; } if(!bad) for(int u=0;u<k;u++) for(int v=0;v<k;v++) if((a.pred[v]>>u&1)&&pos[u]>pos[v]) bad=true; if(bad) viol("linearisation",S("method %zu",q)); cnt("linearisations_compared"); }
    for(int v=0;v<k;v++){ uint32_t pr=0,su=0; for(int u:m->methodSubTasksPredecessors[q][v]) pr|=1u<<u; for(int u:m->methodSubTasksSuccessors[q][v]) su|=1u<<u; if(pr&~a.pred[v]) viol("predecessors",S("method %zu",q)); for(int u=0;u<k;u++) if((su>>u&1)&&!(a.pred[u]>>v&1)) viol("successors",S("method %zu",q)); } }
  m->computeTransitiveClosureOfMethodOrderings(); for(size_t q=0;q<p.meth.size();q++){ auto&x=p.meth[q]; int k=x.subs.size(); TN a; a.task.assign(k,0); a.pred.assign(k,0); a.depth.assign(k,0); auto b=a.pred; for(auto&o:x.ord) a.pred[o.second]|=1u<<o.first; ref::closeTN(a); for(int o=0;o<m->numOrderings[q];o+=2) b[m->ordering[q][o+1]]|=1u<<m->ordering[q][o]; if(a.pred!=b) viol("closure",S("method %zu",q)); cnt("closures_compared"); }
  cnt("items_compared",items); finish(); return 0; }
int main(int c,char**v){ if(c<5) return 2; string mode=v[1]; uint64_t seed=strtoull(v[3],0,10); int steps=atoi(v[4]); srand(1); if(mode=="m03") return m03(v[2],seed,steps); if(mode=="visi") return visi(v[2],seed,steps,true); if(mode=="h01") return heur(v[2],seed,steps,false); if(mode=="h02") return heur(v[2],seed,steps,true); if(mode=="m01"){ m01(v[2],seed); if(NVIOL) finish(); return 0; } if(mode=="m04") return m04(v[2],seed); return 2; }
