// S04: inferred invariants evaluated on every state reachable by executable actions.  usage: inv file seed
#include "hcommon.hpp"
#include "Invariants.h"
static bool holds(int l, ref::St s){ return l>=0 ? (s&ref::bit(l))!=0 : (s&ref::bit(-l-1))==0; }
static string lit(const ref::Problem&p,int l){ return l>=0?p.facts[l]:"not "+p.facts[-l-1]; }
static string st(const ref::Problem&p,ref::St s){ string r="{"; for(int f=0;f<p.nf;f++) if(s&ref::bit(f)) r+=p.facts[f]+" "; return r+"}"; }
struct Space { vector<ref::St> s; bool full=true; map<ref::St,pair<ref::St,int>> from; };
static Space explore(const ref::Problem&p,size_t limit){ Space X; set<ref::St> seen; vector<ref::St>&q=X.s; ref::St s0=ref::mask(p.s0); q.push_back(s0); seen.insert(s0); for(size_t i=0;i<q.size();i++) for(size_t a=0;a<p.act.size();a++) if(ref::appl(p,q[i],a)){ ref::St t=ref::succ(p,q[i],a); if(seen.insert(t).second){ if(q.size()>=limit){ X.full=false; return X; } ref::St u=q[i]; q.push_back(t); X.from[t]={u,(int)a}; } } return X; }
static string how(const ref::Problem&p,Space&X,ref::St s){ string r; int k=0; while(X.from.count(s)&&k++<40){ r=p.tname[X.from[s].second]+" "+r; s=X.from[s].first; } return "after "+(r.empty()?string("no action"):r); }
// every pair in the table holds in every state, is stored both ways
static set<pair<int,int>> table(Model*m,const ref::Problem&p,const string&what){ set<pair<int,int>> r; int n=m->numStateBits; for(int i=0;i<2*n;i++) for(int b:binary_invariants[i]){ int a=i-n; if(b<-n||b>=n){ viol("range",what+S(": literal %d of %d facts",b,n)); return r; } r.insert({a,b}); } for(auto&x:r) if(!r.count({x.second,x.first})){ viol("one-sided",what+": "+lit(p,x.first)+" or "+lit(p,x.second)+" is stored for the first only"); return r; } return r; }
static bool check(const ref::Problem&p,Space&X,const set<pair<int,int>>&T,const string&what){ for(auto&x:T) for(auto s:X.s) if(!holds(x.first,s)&&!holds(x.second,s)){ viol("unsound",what+": '"+lit(p,x.first)+" or "+lit(p,x.second)+"' is false in the reachable state "+st(p,s)+" "+how(p,X,s)); return false; } return true; }
int main(int c,char**v){ string file=v[1]; Rng R(strtoull(v[2],0,10)); ref::Problem p=ref::parse(file); Model*m=new Model(true,mtrACTIONS,true,true); m->filename=file; m->rintanenInvariants=true; ifstream in(file); m->read(&in); int n=m->numStateBits;
  if(n!=p.nf||m->numActions<(int)p.act.size()){ viol("size","facts or actions differ"); finish(); return 0; }
  bool extra=m->numActions!=(int)p.act.size(); if(extra) cnt("goal_compiled_into_an_action"); // such an action comes after the others
  Space X=explore(p,6000); cnt(X.full?"spaces_explored":"spaces_cut"); cnt("states",X.s.size());
  // what the input claims must be true for the import to be true
  set<pair<int,int>> in2; auto add=[&](int a,int b){ in2.insert({a,b}); in2.insert({b,a}); }; bool ok=true; auto amo=[&](const ref::VI&g){ for(int a:g) for(int b:g) if(a<b) add(-a-1,-b-1); };
  auto conv=[&](int l){ return l>=0?l:l+1; }; for(auto&g:p.strict){ amo(g); if(g.size()==2) add(g[0],g[1]); } for(auto&g:p.mutex) amo(g); for(auto&i:p.inv) if(i.size()==2) add(conv(i[0]),conv(i[1]));
  for(int k=0;k<p.nv;k++){ ref::VI g; for(int f=p.first[k];f<=p.last[k];f++) g.push_back(f); amo(g); if(g.size()==2) add(g[0],g[1]); if(g.size()>1) for(auto s:X.s){ int t=0; for(int f:g) t+=holds(f,s); if(t!=1) ok=false; } }
  for(auto&x:in2) for(auto s:X.s) if(!holds(x.first,s)&&!holds(x.second,s)) ok=false; if(!ok){ cnt("input_claims_false"); finish(); return 0; }
  extract_invariants_from_parsed_model(m); auto T=table(m,p,"extracted"); cnt("extracted_invariants",T.size()/2); if(NVIOL){ finish(); return 0; }
  for(auto&x:in2) if(!T.count(x)){ viol("lost","the input's '"+lit(p,x.first)+" or "+lit(p,x.second)+"' is missing"); finish(); return 0; }
  if(!check(p,X,T,"extracted")){ finish(); return 0; }
  if(T.size()>in2.size()) cnt("resolution_derived",(T.size()-in2.size())/2);
  compute_Rintanen_Invariants(m); auto T2=table(m,p,"synthesised"); cnt("synthesised_invariants",(T2.size()-T.size())/2); if(NVIOL||!check(p,X,T2,"synthesised")){ finish(); return 0; } for(auto&x:T) if(!T2.count(x)){ viol("lost","an extracted invariant disappeared"); finish(); return 0; }
  // co-occurrence
  for(int a=-n;a<n&&!NVIOL;a++) for(int b=-n;b<n&&!NVIOL;b++){ bool co=can_state_features_co_occur(m,a,b); cnt(co?"pairs_co_occur":"pairs_exclusive"); if(!co) for(auto s:X.s) if(holds(a,s)&&holds(b,s)){ viol("co-occur",lit(p,a)+" and "+lit(p,b)+" are said to be exclusive but hold in "+st(p,s)); break; } }
  // layers of allowed actions, as for the leafs of a decomposition tree: what remains after each layer holds in all states reached, actions dropped are never applicable
  for(int rep=0;rep<6&&!NVIOL&&!p.act.empty();rep++){ vector<pair<int,int>> v0; bool*del; vector<vector<int>> pos,neg; compute_Rintanen_initial_invariants(m,v0,del,pos,neg); set<ref::St> cur={ref::mask(p.s0)}; int L=1+R(7); bool opt=R.p(.5);
    for(int l=0;l<L&&!NVIOL;l++){ set<int> as; int k=1+R(3); while(k-->0) as.insert(R(p.act.size())); vector<pair<int,pair<bool*,bool*>>> ex; set<ref::St> nx; if(opt) nx=cur; cnt("layers");
      for(int a:as){ bool*pp=new bool[n],*nn=new bool[n]; bool e=compute_Rintanten_action_applicable(m,a,v0,del,pos,neg,pp,nn); if(e) ex.push_back({a,{pp,nn}}); else cnt("actions_pruned"); for(auto s:cur) if(ref::appl(p,s,a)){ if(!e){ viol("pruned",p.tname[a]+" was found inapplicable in layer "+to_string(l)+" but is applicable in "+st(p,s)); break; } for(int f=0;f<n;f++) if((pp[f]&&!holds(f,s))||(nn[f]&&holds(f,s))){ viol("inferred","a precondition inferred for "+p.tname[a]+" about "+p.facts[f]+" is false in "+st(p,s)); break; } nx.insert(ref::succ(p,s,a)); cnt("layer_transitions"); } }
      for(auto&e:ex) compute_Rintanten_action_effect(m,e.first,v0,del,pos,neg,e.second.first,e.second.second); compute_Rintanen_reduce_invariants(m,v0,del,pos,neg); for(auto&e:ex){ delete[] e.second.first; delete[] e.second.second; }
      cur=nx; for(auto&x:v0) for(auto s:cur) if(!NVIOL&&!holds(x.first,s)&&!holds(x.second,s)) viol("layer",S("after layer %d '",l)+lit(p,x.first)+" or "+lit(p,x.second)+"' is kept but false in "+st(p,s)); cnt("layer_invariants",v0.size()); if(cur.empty()) break; }
    delete[] del; }
  finish(); return 0; }
