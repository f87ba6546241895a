// Independent reference semantics of grounded HTN planning problems (no code shared with /repo).
// Parses the grounded input format on its own, implements progression semantics, an exhaustive
// reference solver (cost optimal, optionally bounded in decomposition depth / network size).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <climits>
#include <algorithm>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace ref {
typedef std::vector<int> VI;
struct Action { int cost; VI prec, add, del; };
struct Method { std::string name; int task; VI subs; std::vector<std::pair<int,int>> ord; };
struct Problem {
  int nf = 0; std::vector<std::string> facts;
  int nv = 0; VI first, last; std::vector<std::string> vars;
  std::vector<VI> strict, mutex, inv;
  std::vector<Action> act; VI s0, goal;
  std::vector<std::string> tname; std::vector<bool> abst; int init = -1;
  std::vector<Method> meth; std::vector<VI> t2m;
  bool ok = false;
  bool isPrim(int t) const { return t < (int)act.size(); }
};
struct LineReader { std::ifstream in; LineReader(const std::string&p):in(p){} 
  std::string line(){ std::string s; std::getline(in,s); return s; }
  std::string data(){ std::string s; do { if(!std::getline(in,s)) return ""; } while(s.size()&&s[0]==';'); return s; } };
inline VI ints(const std::string&s){ std::istringstream i(s); VI v; int x; while(i>>x) v.push_back(x); return v; }
// format is line oriented: sections are introduced by lines starting with ';;', blank lines separate them
inline Problem parse(const std::string& path){
  Problem p; std::ifstream in(path); std::vector<std::string> L; std::string s;
  // section comments and separators removed; empty data lines never occur inside sections
  while(std::getline(in,s)){ if(s.size()>=2&&s[0]==';'&&s[1]==';') continue; if(s.empty()) continue; L.push_back(s);} 
  size_t i=0; auto nx=[&]()->std::string{ return i<L.size()?L[i++]:std::string("0"); };
  auto lst=[&](){ VI v=ints(nx()); VI r; for(int x:v){ if(x==-1) break; r.push_back(x);} return r; };
  p.nf=ints(nx())[0]; for(int k=0;k<p.nf;k++) p.facts.push_back(nx());
  p.nv=ints(nx())[0]; for(int k=0;k<p.nv;k++){ std::istringstream q(nx()); int a,b; std::string n; q>>a>>b>>n; p.first.push_back(a);p.last.push_back(b);p.vars.push_back(n);} 
  for(int sec=0;sec<3;sec++){ int n=ints(nx())[0]; for(int k=0;k<n;k++){ VI v=lst(); (sec==0?p.strict:sec==1?p.mutex:p.inv).push_back(v);} }
  int na=ints(nx())[0];
  for(int k=0;k<na;k++){ Action a; a.cost=ints(nx())[0]; a.prec=lst();
    for(int e=0;e<2;e++){ VI v=ints(nx()); size_t j=0; while(j<v.size()&&v[j]!=-1){ int c=v[j++]; j+=c; (e==0?a.add:a.del).push_back(v[j++]); } }
    p.act.push_back(a);} 
  p.s0=lst(); p.goal=lst();
  int nt=ints(nx())[0]; for(int k=0;k<nt;k++){ std::istringstream q(nx()); int a; std::string n; q>>a>>n; p.abst.push_back(a); p.tname.push_back(n);} 
  p.init=ints(nx())[0]; int nm=ints(nx())[0]; p.t2m.resize(nt);
  for(int k=0;k<nm;k++){ Method m; m.name=nx(); m.task=ints(nx())[0]; m.subs=lst(); VI o=lst(); for(size_t j=0;j+1<o.size();j+=2) m.ord.push_back({o[j],o[j+1]}); p.t2m[m.task].push_back(k); p.meth.push_back(m);} 
  p.ok = i<=L.size(); return p; }

typedef unsigned __int128 St; // up to 128 facts
inline St bit(int f){ return St(1)<<f; }
inline St mask(const VI&v){ St s=0; for(int x:v) s|=bit(x); return s; }
// PDDL semantics: delete, then add
inline St succ(const Problem&p, St s, int a){ St d=mask(p.act[a].del), ad=mask(p.act[a].add); return (s&~d)|ad; }
inline bool appl(const Problem&p, St s, int a){ St q=mask(p.act[a].prec); return (s&q)==q; }

struct TN { VI task; std::vector<uint32_t> pred; VI depth; }; // pred = bitmask of remaining predecessors (transitive or not)
inline void closeTN(TN&t){ int n=t.task.size(); bool ch=true; while(ch){ ch=false; for(int i=0;i<n;i++){ uint32_t m=t.pred[i]; for(int j=0;j<n;j++) if(m>>j&1) m|=t.pred[j]; if(m!=t.pred[i]){t.pred[i]=m;ch=true;} } } }
inline TN removeNode(const TN&t,int k){ TN r; int n=t.task.size(); for(int i=0;i<n;i++){ if(i==k) continue; r.task.push_back(t.task[i]); r.depth.push_back(t.depth[i]); uint32_t m=t.pred[i]; uint32_t lo=m&((1u<<k)-1), hi=(uint32_t)((uint64_t)m>>(k+1)); r.pred.push_back(lo|(uint32_t)((uint64_t)hi<<k)); } return r; }
// replace node k (any node) by the method's subtasks
inline TN decompose(const Problem&p,const TN&t,int k,const Method&m){ TN c=t; closeTN(c); int n=t.task.size(); int s=m.subs.size(); int d=t.depth[k];
  TN r; int base=n; // positions base..base+s-1 are new, then remove k
  r=c; for(int i=0;i<s;i++){ r.task.push_back(m.subs[i]); r.depth.push_back(d+1); r.pred.push_back(c.pred[k]); }
  for(auto&o:m.ord) r.pred[base+o.second]|=1u<<(base+o.first);
  for(int i=0;i<n;i++) if(c.pred[i]>>k&1) for(int j=0;j<s;j++) r.pred[i]|=1u<<(base+j);
  closeTN(r); return removeNode(r,k); }
// canonical-ish relabelling (sound: equal keys => isomorphic)
inline std::string key(St s,TN&t,bool useDepth){ int n=t.task.size(); std::vector<uint64_t> col(n); for(int i=0;i<n;i++) col[i]=t.task[i]*1000003ull+(useDepth?t.depth[i]*7919ull:0);
  for(int it=0;it<3;it++){ std::vector<uint64_t> nc(n); for(int i=0;i<n;i++){ uint64_t a=0,b=0; for(int j=0;j<n;j++){ if(t.pred[i]>>j&1) a+=(col[j]^0x9e3779b97f4a7c15ull)*0xbf58476d1ce4e5b9ull; if(t.pred[j]>>i&1) b+=(col[j]^0x94d049bb133111ebull)*0xff51afd7ed558ccdull; } nc[i]=col[i]*31+(a^(a>>29))+(b^(b>>31))*0x9e3779b97f4a7c15ull; } col=nc; }
  VI ix(n); for(int i=0;i<n;i++) ix[i]=i; std::stable_sort(ix.begin(),ix.end(),[&](int a,int b){return col[a]<col[b];});
  VI pos(n); for(int i=0;i<n;i++) pos[ix[i]]=i; TN r; for(int i=0;i<n;i++){ int o=ix[i]; r.task.push_back(t.task[o]); r.depth.push_back(t.depth[o]); uint32_t m=0; for(int j=0;j<n;j++) if(t.pred[o]>>j&1) m|=1u<<pos[j]; r.pred.push_back(m);} t=r;
  std::string k((char*)&s,sizeof s); for(int i=0;i<n;i++){ k.append((char*)&r.task[i],4); k.append((char*)&r.pred[i],4); if(useDepth) k.append((char*)&r.depth[i],4);} return k; }

struct Opt { int maxNodes=50000; int maxDepth=-1; int maxSize=12; St startState=0; bool haveStart=false; TN startTN; bool unitCost=false; bool full=false; };
struct Result { int status=0; /*1 solved 0 unsolvable -1 unknown*/ long cost=-1; bool costExact=false; int len=-1; long nodes=0; bool cut=false; bool finite=false; /*full: whole space explored*/ };
inline std::vector<long> minCosts(const Problem&p){ const long INF=LONG_MAX/4; std::vector<long> c(p.tname.size(),INF); for(size_t a=0;a<p.act.size();a++) c[a]=p.act[a].cost; bool ch=true; while(ch){ ch=false; for(auto&m:p.meth){ long s=0; for(int t:m.subs) s=std::min(INF,s+c[t]); if(s<c[m.task]){c[m.task]=s;ch=true;} } } return c; }
// cost-optimal exhaustive search (Dijkstra with an admissible task lower bound)
inline Result solve(const Problem&p,const Opt&o){ Result R; std::vector<long> lb=minCosts(p); const long INF=LONG_MAX/4; bool ud=o.maxDepth>=0;
  struct N{ St s; TN t; long g; int len; }; std::vector<N> nodes; typedef std::pair<std::pair<long,long>,int> Q; // (f,-g)
  std::priority_queue<Q,std::vector<Q>,std::greater<Q>> q; std::unordered_map<std::string,long> best; long cutF=INF;
  auto push=[&](St s,TN t,long g,int len){ long h=0; for(int x:t.task) h=std::min(INF,h+lb[x]); if(h>=INF) return; if((int)t.task.size()>o.maxSize){ R.cut=true; cutF=std::min(cutF,g+h); return; } std::string k=key(s,t,ud); auto it=best.find(k); if(it!=best.end()&&it->second<=g) return; best[k]=g; nodes.push_back({s,t,g,len}); q.push({{g+h,-g},(int)nodes.size()-1}); };
  St goal=mask(p.goal); TN t0; St s0; if(o.haveStart){ t0=o.startTN; s0=o.startState; } else { t0.task={p.init}; t0.pred={0}; t0.depth={0}; s0=mask(p.s0);} push(s0,t0,0,0);
  while(!q.empty()){ auto top=q.top(); q.pop(); N n=nodes[top.second]; { TN tt=n.t; if(best[key(n.s,tt,ud)]<n.g) continue; }
    if(++R.nodes>o.maxNodes){ if(R.status!=1) R.status=-1; return R; }
    if(n.t.task.empty()){ if((n.s&goal)==goal&&R.status!=1){ R.status=1; R.cost=n.g; R.len=n.len; R.costExact= n.g<=cutF; if(!o.full) return R;} continue; }
    int ab=-1; for(size_t i=0;i<n.t.task.size();i++) if(!n.t.pred[i]&&!p.isPrim(n.t.task[i])){ ab=i; break; }
    if(ab>=0){ if(ud&&n.t.depth[ab]+1>o.maxDepth) continue; for(int m:p.t2m[n.t.task[ab]]){ if(n.t.task.size()+p.meth[m].subs.size()>30){ R.cut=true; cutF=std::min(cutF,n.g); continue;} push(n.s,decompose(p,n.t,ab,p.meth[m]),n.g,n.len);} }
    else for(size_t i=0;i<n.t.task.size();i++) if(!n.t.pred[i]){ int a=n.t.task[i]; if(!appl(p,n.s,a)) continue; push(succ(p,n.s,a),removeNode(n.t,i),n.g+(o.unitCost?1:p.act[a].cost),n.len+1); }
  }
  R.finite=!R.cut; if(R.status!=1) R.status=R.cut?-1:0; return R; }
}
