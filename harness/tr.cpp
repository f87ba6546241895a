// B03: symbolic images, preimages and state encodings against explicit computation.  usage: tr file seed rounds
#include <algorithm>
#include "hcommon.hpp"
#include "transition_relation.h"
using namespace symbolic;
typedef ref::St St;
int main(int c,char**v){ string file=v[1]; Rng R(strtoull(v[2],0,10)); int rounds=atoi(v[3]); bool tiny=c>4; ref::Problem p=ref::parse(file); Model*m=new Model(true,mtrACTIONS,true,true); m->filename=file; ifstream in(file); m->read(&in);
  // all states: one value per group, every fact that is on its own true or false
  vector<vector<St>> dom; double tot=1; for(int k=0;k<p.nv;k++){ vector<St> d; if(p.first[k]==p.last[k]) d={ref::bit(p.first[k]),0}; else for(int f=p.first[k];f<=p.last[k];f++) d.push_back(ref::bit(f)); tot*=d.size(); dom.push_back(d); } if(tot>3000){ cnt("too_many_states"); finish(); return 0; }
  vector<St> all={0}; for(auto&d:dom){ vector<St> n; for(St s:all) for(St x:d) n.push_back(s|x); all=n; } map<St,int> id; for(size_t i=0;i<all.size();i++) id[all[i]]=i; cnt("states",all.size()); cnt("multi_valued_variables",count_if(dom.begin(),dom.end(),[](auto&d){return d.size()>2;}));
  SymVariables sv(m); bool aux=R.p(.7); sv.init(aux); auto facts=[&](St s){ vector<int> r; for(int f=0;f<p.nf;f++) if(s&ref::bit(f)) r.push_back(f); return r; }; auto show=[&](St s){ string r="{"; for(int f:facts(s)) r+=p.facts[f]+" "; return r+"}"; };
  // encoding of single states: all forms agree, different states are disjoint, together they are the valid assignments
  vector<BDD> enc; BDD un=sv.zeroBDD(); for(St s:all){ auto f=facts(s); BDD a=sv.getStateBDD(f.data(),(int)f.size()); vector<bool> bv(p.nf); for(int x:f) bv[x]=true; BDD b=sv.getStateBDD(bv); vector<int> val; for(int k=0;k<p.nv;k++){ int q=0; for(size_t j=0;j<dom[k].size();j++) if((s&dom[k][j])==dom[k][j]&&(dom[k][j]||dom[k].size()!=2||!(s&dom[k][0]))) q=j; val.push_back(q); }
    BDD d=sv.getStateBDD(val); if(a!=b||a!=d) viol("encodings-differ","three ways to encode "+show(s)); if(!(un*a).IsZero()) viol("not-injective","the code of "+show(s)+" is shared"); if(sv.numStates(a)!=1) viol("not-one-state",show(s)+S(" stands for %g assignments",sv.numStates(a))); un+=a; enc.push_back(a); cnt("states_encoded"); if(NVIOL){ finish(); return 0; } }
  if(un!=sv.validStates()) viol("valid-states","the valid states are not the encodings of all states");
  vector<char> none(all.size(),0); auto mk=[&](const vector<char>&x){ BDD r=sv.zeroBDD(); for(size_t i=0;i<all.size();i++) if(x[i]) r+=enc[i]; return r; };
  auto pick=[&]{ vector<char> x=none; int k=R(5); if(k==0) for(auto&y:x) y=1; else if(k==1) x[R(x.size())]=1; else if(k==2){ double q=.05+.9*(R(100)/100.); for(auto&y:x) y=R.p(q); } else { // those that satisfy some facts
      St a=0; int n=1+R(2); vector<int> l; while(n--) l.push_back(R(p.nf)); for(size_t i=0;i<x.size();i++){ x[i]=1; for(int f:l) if(!(all[i]&ref::bit(f))) x[i]=0; } cnt("partial_states"); BDD ps=sv.getPartialStateBDD(l.data(),(int)l.size())*sv.validStates(); if(ps!=mk(x)) viol("partial-state","a partial state stands for other states"); vector<pair<int,int>> vv; for(int f:l) for(int q=0;q<p.nv;q++) if(p.first[q]<=f&&f<=p.last[q]) vv.push_back({q,f-p.first[q]}); if(sv.getPartialStateBDD(vv)!=mk(x)) viol("partial-state","a partial state given by values stands for other states"); }
    return x; };
  auto eq=[&](const BDD&b,const vector<char>&x,const string&what){ BDD w=mk(x); if(b==w) return; for(size_t i=0;i<all.size();i++) if((enc[i]<=b)!=(bool)x[i]){ viol(what.substr(0,what.find(' ')),what+(x[i]?" lacks ":" has ")+show(all[i])); return; } viol(what.substr(0,what.find(' ')),what+" has assignments that are no state"); };
  int A=p.act.size(); vector<unique_ptr<TransitionRelation>> tr; for(int a=0;a<A;a++){ tr.emplace_back(new TransitionRelation(&sv,a,m->actionCosts[a])); tr.back()->init(m); if(tr.back()->getCost()!=p.act[a].cost) viol("cost",p.tname[a]); }
  auto fwd=[&](int a,const vector<char>&x){ vector<char> y=none; for(size_t i=0;i<x.size();i++) if(x[i]&&ref::appl(p,all[i],a)) y[id.at(ref::succ(p,all[i],a))]=1; return y; }; auto bwd=[&](int a,const vector<char>&y){ vector<char> x=none; for(size_t i=0;i<x.size();i++) if(ref::appl(p,all[i],a)&&y[id.at(ref::succ(p,all[i],a))]) x[i]=1; return x; };
  for(int a=0;a<A;a++) for(St s:all) if(ref::appl(p,s,a)&&!id.count(ref::succ(p,s,a))){ cnt("actions_leaving_the_state_space"); finish(); return 0; }
  for(int r=0;r<rounds&&!NVIOL&&A;r++){ int a=R(A); auto x=pick(); BDD b=mk(x); auto f=fwd(a,x),g=bwd(a,x); BDD im=R.p(.5)?tr[a]->image(b):tr[a]->image(b,10000000),pre=R.p(.5)?tr[a]->preimage(b):tr[a]->preimage(b,10000000); eq(im,f,"image of "+p.tname[a]); eq(pre*sv.validStates(),g,"preimage of "+p.tname[a]); cnt("images"); if(count(f.begin(),f.end(),1)) cnt("non_empty_images"); if(count(g.begin(),g.end(),1)) cnt("non_empty_preimages");
    if(R.p(.3)){ auto st=sv.getStatesFrom(b); set<vector<int>> q; for(auto s:st){ sort(s.begin(),s.end()); q.insert(s); } set<vector<int>> w; for(size_t i=0;i<all.size();i++) if(x[i]) w.insert(facts(all[i])); if(st.size()!=w.size()||q!=w) viol("decoding",S("%zu states listed, the set has %zu",st.size(),w.size())); cnt("sets_decoded"); }
    if(R.p(.3)){ // several steps
      auto y=x; BDD z=b; int n=2+R(4); while(n--){ int e=R(A); bool fw=R.p(.6); y=fw?fwd(e,y):bwd(e,y); z=fw?tr[e]->image(z):tr[e]->preimage(z)*sv.validStates(); } eq(z,y,"sequence of steps"); cnt("step_sequences"); }
    if(R.p(.3)){ // a union of actions
      vector<int> as={a}; for(int e=0;e<A;e++) if(e!=a&&p.act[e].cost==p.act[a].cost&&as.size()<4&&R.p(.6)) as.push_back(e); if(as.size()>1){ TransitionRelation u(*tr[a]); for(size_t i=1;i<as.size();i++) u.merge(*tr[as[i]],10000000); vector<char> F=none,G=none; for(int e:as){ auto f1=fwd(e,x),g1=bwd(e,x); for(size_t i=0;i<F.size();i++) F[i]|=f1[i],G[i]|=g1[i]; } eq(u.image(b),F,"image of merged actions"); eq(u.preimage(b)*sv.validStates(),G,"preimage of merged actions"); if(u.getOpsIds()!=set<int>(as.begin(),as.end())) viol("merged-ids",""); cnt("merged_relations"); } }
    if(R.p(.3)){ BDD s=b.SwapVariables(sv.swapVarsPre,sv.swapVarsEff); if(s.SwapVariables(sv.swapVarsEff,sv.swapVarsPre)!=b) viol("swap",""); BDD bi=sv.oneBDD(); for(int k=0;k<p.nv;k++) bi*=sv.biimp(k); if((b*bi).AndAbstract(sv.oneBDD(),sv.existsVarsPre)!=s) viol("biimplication","renaming by biimplication differs from swapping"); if((b*bi).AndAbstract(sv.oneBDD(),sv.existsVarsEff)!=b) viol("biimplication","abstraction");
      BDD ef=sv.zeroBDD(); for(size_t i=0;i<all.size();i++) if(x[i]){ BDD q=sv.oneBDD(); for(int k=0;k<p.nv;k++) for(size_t j=0;j<dom[k].size();j++) if(dom[k][j]?(all[i]&dom[k][j])!=0:!(all[i]&dom[k][0])) q*=sv.effBDD(k,j); ef+=q; } if(ef!=s) viol("swap","the next-state copy of a set differs");
      if(aux){ BDD t=s.SwapVariables(sv.swapVarsEff,sv.swapVarsAux); BDD ba=sv.oneBDD(); for(int k=0;k<p.nv;k++) ba*=sv.auxBiimp(k); if((b*ba).AndAbstract(sv.oneBDD(),sv.existsVarsPre)!=t) viol("biimplication","auxiliary copy"); if((t*b).AndAbstract(sv.oneBDD(),sv.existsVarsAux)!=(t.IsZero()?sv.zeroBDD():b)) viol("biimplication","auxiliary abstraction"); cnt("auxiliary_copies"); } cnt("copies_compared"); } }
  tr.clear(); enc.clear(); finish(); fflush(stdout); _Exit(0); }
