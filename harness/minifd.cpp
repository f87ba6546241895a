// Stand-in for the external classical planner (Fast Downward translator output, version 3, on stdin).
//  - checks that the task is well formed (exit 30 and a MALFORMED log line if not)
//  - exhaustive breadth-first search in a random order (MINIFD_SEED), optionally a random walk first for diverse plans
//  - exit 0: plan written; 12: exhausted, no plan; 23: state limit reached; MINIFD_FAIL=<n>:<code> makes call n end with <code>
//  - one line per call is appended to MINIFD_LOG; the task is copied to MINIFD_COPY.<call> when set
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace std;
typedef vector<unsigned short> St;
struct H { size_t operator()(const St&s) const { size_t h=1469598103934665603ull; for(auto c:s){ h^=c; h*=1099511628211ull; } return h; } };
struct Eff { vector<pair<int,int>> cond; int var, pre, post; };
struct Op { string name; vector<pair<int,int>> prec; vector<Eff> eff; int cost; };
static string logfile; static int callno=0;
static void logline(const string&s){ if(logfile.size()){ ofstream f(logfile,ios::app); f<<callno<<" "<<s<<"\n"; } }
static void bad(const string&s){ logline("MALFORMED "+s); cerr<<"malformed task: "<<s<<endl; exit(30); }
static istringstream in;
static string line(){ string s; if(!getline(in,s)) bad("unexpected end"); return s; }
static void expect(const string&e){ string s=line(); while(s.empty()) s=line(); if(s!=e) bad("expected "+e+" got '"+s+"'"); }
static vector<int> nums(const string&s){ istringstream i(s); vector<int> v; string w; while(i>>w){ char*e; long x=strtol(w.c_str(),&e,10); if(*e) bad("not a number: '"+s+"'"); v.push_back(x);} return v; }
static int num(){ string s=line(); while(s.empty()) s=line(); auto v=nums(s); if(v.size()!=1) bad("expected a number: '"+s+"'"); return v[0]; }
int main(int argc,char**argv){
  string planfile; string args;
  for(int i=1;i<argc;i++){ if(string(argv[i])=="--internal-plan-file"&&i+1<argc) planfile=argv[i+1]; args+=string(" ")+argv[i]; }
  auto env=[&](const char*n){ const char*e=getenv(n); return string(e?e:""); };
  logfile=env("MINIFD_LOG");
  if(logfile.size()){ ifstream f(logfile); string l; while(getline(f,l)) if(l.find(" CALL ")!=string::npos) callno++; }
  logline("CALL"+args+" ");
  string all((istreambuf_iterator<char>(cin)),istreambuf_iterator<char>());
  if(env("MINIFD_COPY").size()){ ofstream f(env("MINIFD_COPY")+"."+to_string(callno)); f<<all; }
  string fail=env("MINIFD_FAIL"); { istringstream fi(fail); string w; while(fi>>w){ int n,c; if(sscanf(w.c_str(),"%d:%d",&n,&c)==2&&n==callno){ logline("RESULT fail "+to_string(c)); exit(c);} } }
  in.str(all);
  expect("begin_version"); if(num()!=3) bad("version"); expect("end_version");
  expect("begin_metric"); int metric=num(); if(metric!=0&&metric!=1) bad("metric"); expect("end_metric");
  int nv=num(); if(nv<1) bad("no variables"); vector<int> dom(nv); set<string> atoms;
  for(int i=0;i<nv;i++){ expect("begin_variable"); if(line().empty()) bad("variable name"); if(num()!=-1) bad("axiom layer"); dom[i]=num(); if(dom[i]<1||dom[i]>60000) bad("domain size "+to_string(dom[i]));
    for(int j=0;j<dom[i];j++){ string a=line(); if(a.rfind("Atom ",0)&&a.rfind("NegatedAtom ",0)&&a!="<none of those>") bad("atom '"+a+"'"); } expect("end_variable"); }
  auto chk=[&](int v,int x,const char*w){ if(v<0||v>=nv||x<0||x>=dom[v]) bad(string(w)+" "+to_string(v)+"="+to_string(x)+" out of range"); };
  int nm=num(); for(int i=0;i<nm;i++){ expect("begin_mutex_group"); int k=num(); for(int j=0;j<k;j++){ auto v=nums(line()); if(v.size()!=2) bad("mutex line"); chk(v[0],v[1],"mutex"); } expect("end_mutex_group"); }
  expect("begin_state"); St s0(nv); for(int i=0;i<nv;i++){ auto v=nums(line()); if(v.size()!=1) bad("state line"); chk(i,v[0],"state"); s0[i]=v[0]; } expect("end_state");
  expect("begin_goal"); int ng=num(); vector<pair<int,int>> goal; for(int i=0;i<ng;i++){ auto v=nums(line()); if(v.size()!=2) bad("goal line"); chk(v[0],v[1],"goal"); goal.push_back({v[0],v[1]}); } expect("end_goal");
  int no=num(); vector<Op> ops(no);
  for(auto&o:ops){ expect("begin_operator"); o.name=line(); if(o.name.empty()) bad("operator without name"); int k=num(); set<int> pv;
    for(int j=0;j<k;j++){ auto v=nums(line()); if(v.size()!=2) bad("prevail line of "+o.name); chk(v[0],v[1],("prevail of "+o.name).c_str()); if(!pv.insert(v[0]).second){ for(auto&p:o.prec) if(p.first==v[0]&&p.second!=v[1]) { o.prec.push_back({v[0],v[1]}); } } else o.prec.push_back({v[0],v[1]}); }
    int e=num(); for(int j=0;j<e;j++){ auto v=nums(line()); if(v.size()<4||v[0]<0||(int)v.size()!=4+2*v[0]) bad("effect line of "+o.name); Eff f; for(int c=0;c<v[0];c++){ chk(v[1+2*c],v[2+2*c],("effect condition of "+o.name).c_str()); f.cond.push_back({v[1+2*c],v[2+2*c]}); }
      int b=1+2*v[0]; f.var=v[b]; f.pre=v[b+1]; f.post=v[b+2]; chk(f.var,f.post,("effect of "+o.name).c_str()); if(f.pre!=-1) { chk(f.var,f.pre,("effect precondition of "+o.name).c_str()); o.prec.push_back({f.var,f.pre}); } o.eff.push_back(f); }
    for(size_t a=0;a<o.eff.size();a++) for(size_t b=0;b<a;b++) if(o.eff[a].cond.empty()&&o.eff[b].cond.empty()&&o.eff[a].var==o.eff[b].var&&o.eff[a].post!=o.eff[b].post) bad("contradicting effects on variable "+to_string(o.eff[a].var)+" of "+o.name);
    o.cost=num(); if(o.cost<0) bad("negative cost"); expect("end_operator"); if(!metric) o.cost=1; }
  if(num()!=0) bad("axioms"); string rest; while(getline(in,rest)) if(rest.size()) bad("trailing text");
  // successor generator: operators by their first precondition
  vector<vector<vector<int>>> by(nv); for(int v=0;v<nv;v++) by[v].resize(dom[v]); vector<int> nopre;
  mt19937 rng(atoi(env("MINIFD_SEED").c_str())*7919+callno); long lim=env("MINIFD_STATES").size()?atol(env("MINIFD_STATES").c_str()):200000;
  vector<int> perm(no); for(int i=0;i<no;i++) perm[i]=i; shuffle(perm.begin(),perm.end(),rng);
  for(int i:perm){ if(ops[i].prec.empty()) nopre.push_back(i); else { auto p=ops[i].prec.back(); by[p.first][p.second].push_back(i);} }
  auto app=[&](const Op&o,const St&s){ for(auto&p:o.prec) if(s[p.first]!=p.second) return false; return true; };
  auto ex=[&](const Op&o,const St&s){ St t=s; for(auto&e:o.eff){ bool ok=true; for(auto&c:e.cond) if(s[c.first]!=c.second){ ok=false; break; } if(ok) t[e.var]=e.post; } return t; };
  auto isg=[&](const St&s){ for(auto&g:goal) if(s[g.first]!=g.second) return false; return true; };
  bool dfs=env("MINIFD_ORDER")=="dfs";
  unordered_map<St,pair<St,int>,H> par; deque<St> q; q.push_back(s0); par[s0]={s0,-1}; bool cut=false; St end; bool found=false;
  while(!q.empty()){ St s; if(dfs){ s=q.back(); q.pop_back(); } else { s=q.front(); q.pop_front(); }
    if(isg(s)){ found=true; end=s; break; }
    if((long)par.size()>lim){ cut=true; break; }
    vector<int> c=nopre; for(int v=0;v<nv;v++) for(int i:by[v][s[v]]) c.push_back(i);
    shuffle(c.begin(),c.end(),rng);
    for(int i:c) if(app(ops[i],s)){ St t=ex(ops[i],s); if(par.emplace(t,make_pair(s,i)).second) q.push_back(t); } }
  if(found){ vector<int> pl; St s=end; while(true){ auto&p=par[s]; if(p.second<0) break; pl.push_back(p.second); s=p.first; } reverse(pl.begin(),pl.end()); long cost=0; ofstream f(planfile+(env("MINIFD_NUMBERED").size()?".1":"")); for(int i:pl){ f<<"("<<ops[i].name<<")\n"; cost+=ops[i].cost; } f<<"; cost = "<<cost<<" ("<<(metric?"general cost":"unit cost")<<")\n"; f.close(); logline("RESULT plan "+to_string(pl.size())+" cost "+to_string(cost)+" ops "+to_string(no)); return 0; }
  if(cut){ logline("RESULT limit"); return 23; }
  logline("RESULT unsolvable states "+to_string(par.size())+" ops "+to_string(no)); return 12;
}
