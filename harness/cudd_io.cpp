// C03: diagrams stored, loaded, transferred and exported, re-interpreted here and compared as functions.
// usage: cudd_io seed rounds scratchdir
#include <bitset>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <functional>
#include <fstream>
#include <sstream>
#include <unistd.h>
extern "C" {
#include "util.h"
#include "cudd.h"
#include "dddmp.h"
}
#undef fail
using namespace std;
static map<string,long> CNT; static int NVIOL=0; static string CTX,DIR;
static void cnt(const string&k,long v=1){ CNT[k]+=v; }
static void viol(const string&sig,const string&msg){ if(NVIOL++<3){ string m=msg+" ("+CTX+")"; for(char&c:m) if(c=='\n') c='~'; printf("\n@VIOL %s|%s\n",sig.c_str(),m.substr(0,1500).c_str()); fflush(stdout);} }
static string S(const char*f,...){ char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
struct Rng { mt19937_64 g; int operator()(int n){ return n<=0?0:(int)(g()%n); } bool p(double x){ return (g()>>11)*0x1p-53<x; } } R;
const int N=7, M=1<<N; typedef bitset<M> TT; typedef vector<double> AT; static TT V[N],ALL;
static TT cof(const TT&t,int i,bool b){ TT h=b?((t&V[i])>>(1<<i)):(t&~V[i]); return h|(h<<(1<<i)); }
static string show(const TT&t){ string s; for(int i=0;i<M;i+=4){ int h=0; for(int j=0;j<4;j++) h|=t[i+j]<<j; s+="0123456789abcdef"[h]; } return s; }
static void finish(){ printf("\n"); for(auto&x:CNT) printf("@CNT %s %ld\n",x.first.c_str(),x.second); printf("@DONE\n"); fflush(stdout); _Exit(0); }
// a manager; logical variable i of the truth tables is the variable with index ix[i]
struct Mg { DdManager*m; int n; Mg(int n):n(n){ m=Cudd_Init(n,0,R.p(.5)?CUDD_UNIQUE_SLOTS:64,CUDD_CACHE_SLOTS,0); if(R.p(.7)) shuffle(); }
  void shuffle(){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; std::shuffle(p.begin(),p.end(),R.g); Cudd_ShuffleHeap(m,p.data()); }
  void audit(const char*w){ cnt("audits"); if(Cudd_DebugCheck(m)||Cudd_CheckKeys(m)) viol("inconsistent",S("tables inconsistent %s",w)); }
  void close(){ if(int k=Cudd_CheckZeroRef(m)) viol("references",S("%d nodes are still referenced at the end",k)); Cudd_Quit(m); cnt("managers_closed"); } };
typedef vector<int> Map; // logical variable -> index
static Map mapping(int n){ vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; shuffle(p.begin(),p.end(),R.g); p.resize(N); if(R.p(.5)) sort(p.begin(),p.end()); return p; }
static DdNode*mk(Mg&g,const Map&x,const TT&t,int i=0){ if(t.none()) return Cudd_Ref(Cudd_ReadLogicZero(g.m)),Cudd_ReadLogicZero(g.m); if(t==ALL) return Cudd_Ref(Cudd_ReadOne(g.m)),Cudd_ReadOne(g.m); DdNode*a=mk(g,x,cof(t,i,1),i+1),*b=mk(g,x,cof(t,i,0),i+1); DdNode*r=Cudd_bddIte(g.m,Cudd_bddIthVar(g.m,x[i]),a,b); Cudd_Ref(r); Cudd_RecursiveDeref(g.m,a); Cudd_RecursiveDeref(g.m,b); return r; }
static DdNode*mka(Mg&g,const Map&x,const AT&t,int i,int from,int len){ // t[from..from+len): the most significant logical variable first
  bool same=true; for(int k=1;k<len;k++) if(t[from+k]!=t[from]) same=false; if(same){ DdNode*c=Cudd_addConst(g.m,t[from]); Cudd_Ref(c); return c; } DdNode*a=mka(g,x,t,i-1,from+len/2,len/2),*b=mka(g,x,t,i-1,from,len/2); DdNode*v=Cudd_addIthVar(g.m,x[i]); Cudd_Ref(v); DdNode*r=Cudd_addIte(g.m,v,a,b); Cudd_Ref(r); Cudd_RecursiveDeref(g.m,a); Cudd_RecursiveDeref(g.m,b); Cudd_RecursiveDeref(g.m,v); return r; }
static TT rd(Mg&g,const Map&x,DdNode*f,bool&clean){ TT t; clean=true; vector<int> in(Cudd_ReadSize(g.m)); for(int a=0;a<M;a++){ for(int j=0;j<(int)in.size();j++) in[j]=0; for(int i=0;i<N;i++) in[x[i]]=a>>i&1; t[a]=Cudd_Eval(g.m,f,in.data())==Cudd_ReadOne(g.m); }
  set<int> ok(x.begin(),x.end()); int*s=nullptr; int k=Cudd_SupportIndices(g.m,f,&s); for(int i=0;i<k;i++) if(!ok.count(s[i])) clean=false; free(s); return t; }
static AT rda(Mg&g,const Map&x,DdNode*f){ AT t(M); vector<int> in(Cudd_ReadSize(g.m)); for(int a=0;a<M;a++){ for(int i=0;i<N;i++) in[x[i]]=a>>i&1; t[a]=Cudd_V(Cudd_Eval(g.m,f,in.data())); } return t; }
static TT rtt(){ TT t; switch(R(9)){ case 0: return R.p(.5)?TT():ALL; case 1: return R.p(.5)?V[R(N)]:~V[R(N)]; case 2: case 3:{ t=ALL; for(int i=0;i<N;i++){ int k=R(3); if(k==0) t&=V[i]; else if(k==1) t&=~V[i]; } return R.p(.5)?t:~t; } case 4:{ t=V[R(N)]; for(int i=0;i<4;i++) t^=V[R(N)]; return t; } case 5: for(int i=0;i<M;i++) t[i]=R.g()&1; return t;
  default: { t=V[R(N)]; int k=R(8); for(int i=0;i<k;i++){ TT v=R.p(.5)?V[R(N)]:~V[R(N)]; int o=R(4); t=o==0?(t&v):o==1?(t|v):o==2?(t^v):((v&t)|(~v&V[R(N)])); } return R.p(.5)?t:~t; } } }
static string slurp(const string&f){ ifstream i(f); stringstream s; s<<i.rdbuf(); return s.str(); }
static vector<string> names(int n,const char*p,bool plain=false){ vector<string> r; for(int i=0;i<n;i++) r.push_back(plain?S("%s%d",p,i):S("%s%d%s",p,i*7%n==i?i:i,R.p(.3)?"_x":"")); return r; }
static vector<char*> cs(vector<string>&v){ vector<char*> r; for(auto&s:v) r.push_back((char*)s.c_str()); return r; }
static void same(const char*what,Mg&g,const Map&x,DdNode*f,const TT&t){ bool cl; TT u=rd(g,x,f,cl); cnt("comparisons"); if(u!=t) viol(what,S("denotes %s instead of %s",show(u).c_str(),show(t).c_str())); else if(!cl) viol(what,"depends on a foreign variable"); }
static void keep(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t,const char*w){ for(size_t i=0;i<f.size();i++) same("source-changed",g,x,f[i],t[i]); g.audit(w); }
// ---------------- text expressions
struct Ex { const string&s; size_t p=0; map<string,TT>&env; bool bad=false; Ex(const string&s,map<string,TT>&e):s(s),env(e){} void ws(){ while(p<s.size()&&isspace((unsigned char)s[p])) p++; } char pk(){ ws(); return p<s.size()?s[p]:0; }
  TT orE(){ TT t=andE(); while(pk()=='+'||pk()=='|'){ p++; t|=andE(); } return t; } TT andE(){ TT t=un(); while(pk()=='*'||pk()=='&'){ p++; t&=un(); } return t; }
  TT un(){ if(pk()=='!'){ p++; return ~un(); } TT t; if(pk()=='('){ p++; t=orE(); if(pk()!=')'){ bad=true; return t; } p++; } else { size_t b=p; while(p<s.size()&&(isalnum((unsigned char)s[p])||s[p]=='_')) p++; string n=s.substr(b,p-b); if(n=="1"||n=="CONST1") t=ALL; else if(n=="0"||n=="CONST0") t=TT(); else if(env.count(n)) t=env[n]; else bad=true; } while(p<s.size()&&s[p]=='\''){ p++; t=~t; } return t; }
  bool all(TT&t){ t=orE(); ws(); return !bad&&p==s.size(); } };
static bool blif(const string&s,map<string,TT>&env,vector<string>*in,vector<string>*out){ struct Nm { vector<string> in; vector<string> rows; }; map<string,Nm> d; istringstream f(s); string l; string cur; bool end=false,mod=false; while(getline(f,l)){ istringstream w(l); string a; if(!(w>>a)) continue; if(end) return false; if(a==".model"){ mod=true; continue; } if(a==".end"){ end=true; continue; } if(a==".inputs"||a==".outputs"){ string x; while(w>>x) if(a==".inputs"){ if(in) in->push_back(x); } else if(out) out->push_back(x); continue; }
    if(a==".names"){ vector<string> v; string x; while(w>>x) v.push_back(x); if(v.empty()) return false; cur=v.back(); v.pop_back(); if(d.count(cur)) return false; d[cur].in=v; continue; } if(cur.empty()) return false; string b; if(!(w>>b)){ b=a; a=""; } if(b!="1"||a.size()!=d[cur].in.size()) return false; d[cur].rows.push_back(a); }
  if(!end||!mod) return false; set<string> busy; bool ok=true; function<TT(const string&)> val=[&](const string&n)->TT{ if(env.count(n)) return env[n]; if(!d.count(n)||busy.count(n)){ ok=false; return TT(); } busy.insert(n); TT t; for(auto&r:d[n].rows){ TT c=ALL; for(size_t i=0;i<r.size();i++) if(r[i]=='1') c&=val(d[n].in[i]); else if(r[i]=='0') c&=~val(d[n].in[i]); t|=c; } busy.erase(n); return env[n]=t; }; for(auto&x:d) val(x.first); return ok; }
static bool blifMv(const string&,map<string,TT>&){ return true; }
struct Sx { const string&s; size_t p=0; map<string,TT>&e; bool bad=false; Sx(const string&s,map<string,TT>&e):s(s),e(e){} string tok(){ while(p<s.size()&&isspace((unsigned char)s[p])) p++; if(p>=s.size()) return ""; if(s[p]=='('||s[p]==')') return string(1,s[p++]); size_t b=p; while(p<s.size()&&!isspace((unsigned char)s[p])&&s[p]!='('&&s[p]!=')') p++; return s.substr(b,p-b); }
  TT arg(){ string t=tok(); if(t!="("){ if(t=="vss") return TT(); if(t=="vdd") return ALL; if(e.count(t)) return e[t]; bad=true; return TT(); } string op=tok(); TT r; if(op=="NOT") r=~arg(); else if(op=="AND"){ r=arg(); r&=arg(); } else if(op=="OR"){ r=arg(); r|=arg(); } else bad=true; if(tok()!=")") bad=true; return r; }
  bool all(){ while(true){ string t=tok(); if(t.empty()) return !bad; if(t!="(") return false; string op=tok(); if(op=="COMMENT"){ while(p<s.size()&&s[p]!=')') p++; p++; continue; } string o=tok(); if(e.count(o)) return false; TT r; if(op=="OR"){ r=arg(); r|=arg(); } else if(op=="BUF") r=arg(); else return false; if(tok()!=")"||bad) return false; e[o]=r; } } };
// dot: returns the value of every output as a table of doubles
// two outputs also appear in the rank line "F0" -> "F1"
static bool dot(const string&s,const vector<string>&vars,const vector<string>&outs,const Map&x,map<string,AT>&res,map<string,string>*varOf=nullptr){ map<string,string> t,e,c,var,root; map<string,double> val; set<string> croot; istringstream f(s); string l; string rank; auto q=[](const string&l,size_t&p)->string{ size_t a=l.find('"',p); if(a==string::npos) return ""; size_t b=l.find('"',a+1); if(b==string::npos) return ""; p=b+1; string r=l.substr(a+1,b-a-1); size_t i=r.find_first_not_of(' '),j=r.find_last_not_of(' '); return i==string::npos?"":r.substr(i,j-i+1); };
  map<string,bool> cedge; set<string> onames(outs.begin(),outs.end()); bool inrank=false;
  while(getline(f,l)){ size_t p=0; if(l.find("[label")!=string::npos){ string n=q(l,p); size_t k=l.find("label = \""); if(k==string::npos) return false; val[n]=atof(l.c_str()+k+9); continue; } if(l.rfind("{ rank = same; \"",0)==0){ rank=q(l,p); inrank=true; continue; } if(l.find("->")!=string::npos){ if(l.find("CONST NODES")!=string::npos||l.find("edge [style = invis]")!=string::npos||(l.find("->")!=l.rfind("->"))) continue; string a=q(l,p),b=q(l,p); if(b.empty()) return false; if(onames.count(b)&&onames.count(a)) continue; if(onames.count(a)){ if(l.find("style = solid")!=string::npos) cedge[a]=false; else if(l.find("style = dotted")!=string::npos) cedge[a]=true; else if(l.find(";")==l.size()-1&&l.find("style")==string::npos) continue; else return false; if(root.count(a)) return false; root[a]=b; continue; }
      if(l.find("style = dashed")!=string::npos) e[a]=b; else if(l.find("style = dotted")!=string::npos){ e[a]=b; croot.insert(a); } else t[a]=b; continue; }
    if(inrank&&!l.empty()&&l[0]=='"'){ var[q(l,p)]=rank; continue; } if(!l.empty()&&l[0]=='}') inrank=false; }
  map<string,int> vi; for(int i=0;i<N;i++) vi[vars[x[i]]]=i; if(varOf) *varOf=var;
  for(auto&o:outs){ if(!root.count(o)) return false; AT r(M); for(int a=0;a<M;a++){ string n=root[o]; bool neg=cedge[o]; int g=0; while(!val.count(n)){ if(!var.count(n)||!t.count(n)||!e.count(n)||++g>100||!vi.count(var[n])) return false; if(a>>vi[var[n]]&1) n=t[n]; else { if(croot.count(n)) neg=!neg; n=e[n]; } } r[a]=neg?1-val[n]:val[n]; } res[o]=r; } return true; }
struct Dv { const string&s; size_t p=0; struct T { string f; vector<T> a; }; Dv(const string&s):s(s){} bool bad=false; T term(){ T t; if(p>=s.size()){ bad=true; return t; } if(s[p]=='['){ p++; t.f="[]"; while(p<s.size()&&s[p]!=']'){ t.a.push_back(term()); if(bad) return t; if(p<s.size()&&s[p]==',') p++; } p++; return t; } if(s[p]=='"'){ size_t b=s.find('"',p+1); if(b==string::npos){ bad=true; return t; } t.f=s.substr(p,b-p+1); p=b+1; return t; } size_t b=p; while(p<s.size()&&isalpha((unsigned char)s[p])) p++; t.f=s.substr(b,p-b); if(p>=s.size()||s[p]!='('){ bad=true; return t; } p++; while(p<s.size()&&s[p]!=')'){ t.a.push_back(term()); if(bad) return t; if(p<s.size()&&s[p]==',') p++; } if(p>=s.size()) bad=true; p++; return t; } };
static bool davinci(const string&s,const vector<string>&vars,const vector<string>&outs,const Map&x,map<string,TT>&res){ Dv d(s); Dv::T top=d.term(); if(d.bad||top.f!="[]"||s.find_first_not_of(" \n",d.p)!=string::npos) return false; map<string,int> vi; for(int i=0;i<N;i++) vi["\""+vars[x[i]]+"\""]=i; map<string,TT> node; bool ok=true; 
  auto obj=[&](const Dv::T&n)->string{ if(n.a.size()<3||n.a[1].a.empty()||n.a[1].a[0].a.size()!=2){ ok=false; return ""; } return n.a[1].a[0].a[1].f; }; auto col=[&](const Dv::T&e)->string{ if(e.a.size()!=3||e.a[1].a.empty()||e.a[1].a[0].a.size()!=2){ ok=false; return ""; } return e.a[1].a[0].a[1].f; };
  function<TT(const Dv::T&)> go=[&](const Dv::T&t)->TT{ if(!ok) return TT(); if(t.f=="r"){ if(t.a.size()!=1||!node.count(t.a[0].f)){ ok=false; return TT(); } return node[t.a[0].f]; } if(t.f!="l"||t.a.size()!=2){ ok=false; return TT(); } const Dv::T&n=t.a[1]; string kind=n.a.empty()?"":n.a[0].f,o=obj(n); TT v; if(!ok) return v; if(kind=="\"constant\"") v=o=="\"1\""?ALL:TT(); else { if(n.a[2].a.size()!=2||!vi.count(o)){ ok=false; return v; } TT T=go(n.a[2].a[0].a[2]),E=go(n.a[2].a[1].a[2]); string c=col(n.a[2].a[1]); if(c=="\"red\"") E=~E; else if(c!="\"green\"") ok=false; if(col(n.a[2].a[0])!="\"blue\"") ok=false; v=(V[vi[o]]&T)|(~V[vi[o]]&E); } node[t.a[0].f]=v; return v; };
  if(top.a.size()!=outs.size()) return false; for(size_t i=0;i<outs.size();i++){ const Dv::T&r=top.a[i]; if(r.f!="l"||r.a.size()!=2||r.a[0].f!="\""+outs[i]+"\"") return false; const Dv::T&n=r.a[1]; if(n.a.size()!=3||n.a[2].a.size()!=1||n.a[2].a[0].a.size()!=3) return false; TT t=go(n.a[2].a[0].a[2]); string c=col(n.a[2].a[0]); if(c=="\"red\"") t=~t; else if(c!="\"blue\"") return false; res[outs[i]]=t; } return ok; }
static void answer(const char*fmt,const string&text,const vector<string>&outs,map<string,TT>&env,const vector<TT>&t,bool ok){ cnt(string("format_")+fmt); if(!ok){ viol(string(fmt)+"-unreadable",text.substr(0,900)); return; } for(size_t i=0;i<outs.size();i++){ cnt("comparisons"); if(!env.count(outs[i])) { viol(string(fmt)+"-missing",outs[i]); return; } if(env[outs[i]]!=t[i]){ viol(string(fmt)+"-wrong",S("output %s denotes %s instead of %s: ",outs[i].c_str(),show(env[outs[i]]).c_str(),show(t[i]).c_str())+text.substr(0,900)); return; } } }
static void textual(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t){ int n=g.n,k=f.size(); bool hasI=R.p(.5),hasO=R.p(.5); vector<string> in=names(n,"va"),on=names(k,"fo"); auto ci=cs(in),co=cs(on); const char*const*I=hasI?ci.data():nullptr,*const*O=hasO?co.data():nullptr; string fn=DIR+"/t.txt";
  auto env0=[&](const vector<string>&nm){ map<string,TT> e; for(int i=0;i<N;i++) e[nm[x[i]]]=V[i]; return e; }; auto dflt=[&](const char*p,int m){ return names(m,p,true); };
  vector<string> digits; for(int i=0;i<n;i++) digits.push_back(to_string(i)); vector<string> outs=hasO?on:dflt("f",k);
  int kind=R(8); FILE*fp=fopen(fn.c_str(),"w"); int rc=1; bool own=false;
  if(kind==0){ int mv=R.p(.3); CTX+=" blif"; rc=Cudd_DumpBlif(g.m,k,f.data(),I,O,R.p(.5)?(char*)"mod":nullptr,fp,mv); fclose(fp); auto e=env0(hasI?in:digits); vector<string> bi,bo; string s=slurp(fn); if(mv){ string u; istringstream w(s); string l; while(getline(w,l)) if(l.rfind(".mv",0)!=0&&l.rfind(".spec",0)!=0){ if(l.rfind(".names",0)==0||l[0]=='.') u+=l+"\n"; else u+=l+"\n"; } s=u; } if(!mv){ bool ok=blif(s,e,&bi,&bo); if(ok&&bo!=outs) ok=false; set<string> si(bi.begin(),bi.end()); if(ok) for(int i=0;i<N;i++){ bool need=false; for(auto&u:t) if(cof(u,i,0)!=cof(u,i,1)) need=true; if(need&&!si.count((hasI?in:digits)[x[i]])) ok=false; } answer("blif",s,outs,e,t,ok); } else cnt("format_blif_mv"); }
  if(kind==1){ CTX+=" ddcal"; rc=Cudd_DumpDDcal(g.m,k,f.data(),I,O,fp); fclose(fp); auto e=env0(hasI?in:dflt("v",n)); string s=slurp(fn),l; istringstream w(s); bool ok=true,first=true,last=false; while(getline(w,l)){ if(first){ first=false; continue; } if(l.empty()) continue; if(l[0]=='['){ last=true; string want="["; for(int i=0;i<k;i++) want+=(i?" ":"")+outs[i]; if(l!=want+"]") ok=false; continue; } size_t q=l.find(" = "); if(q==string::npos){ ok=false; break; } string r=l.substr(q+3); TT v; Ex ex(r,e); if(!ex.all(v)){ ok=false; break; } e[l.substr(0,q)]=v; } answer("ddcal",s,outs,e,t,ok&&last); }
  if(kind==2){ CTX+=" factored form"; rc=Cudd_DumpFactoredForm(g.m,k,f.data(),I,O,fp); fclose(fp); auto e=env0(hasI?in:dflt("x",n)); string s=slurp(fn),l; istringstream w(s); bool ok=true; while(getline(w,l)){ size_t q=l.find(" = "); if(q==string::npos){ ok=false; break; } string r=l.substr(q+3); TT v; Ex ex(r,e); if(!ex.all(v)){ ok=false; break; } e[l.substr(0,q)]=v; } answer("factored_form",s,outs,e,t,ok); }
  if(kind==3){ CTX+=" prefix"; fclose(fp); rc=Dddmp_cuddBddArrayStorePrefix(g.m,k,f.data(),hasI?ci.data():nullptr,hasO?co.data():nullptr,R.p(.5)?(char*)"mod":nullptr,(char*)fn.c_str(),nullptr); auto e=env0(hasI?in:dflt("inNode",n)); string s=slurp(fn); Sx sx(s,e); bool ok=sx.all(); answer("prefix",s,hasO?on:dflt("outNode",k),e,t,ok); }
  if(kind==4){ CTX+=" dddmp blif"; fclose(fp); rc=Dddmp_cuddBddArrayStoreBlif(g.m,k,f.data(),hasI?ci.data():nullptr,hasO?co.data():nullptr,R.p(.5)?(char*)"mod":nullptr,(char*)fn.c_str(),nullptr); auto e=env0(hasI?in:dflt("inNode",n)); vector<string> bi,bo; string s=slurp(fn); auto oo=hasO?on:dflt("outNode",k); bool ok=blif(s,e,&bi,&bo)&&bo==oo; answer("dddmp_blif",s,oo,e,t,ok); }
  if(kind==5){ CTX+=" smv"; fclose(fp); rc=Dddmp_cuddBddArrayStoreSmv(g.m,k,f.data(),hasI?ci.data():nullptr,hasO?co.data():nullptr,R.p(.5)?(char*)"mod":nullptr,(char*)fn.c_str(),nullptr); auto e=env0(hasI?in:dflt("inNode",n)); string s=slurp(fn); bool ok=true; size_t d=s.find("DEFINE"); if(d==string::npos) ok=false; else { size_t p=d+6; while(ok){ size_t q=s.find(":=",p); if(q==string::npos){ if(s.find_first_not_of(" \n\t",p)!=string::npos) ok=false; break; } size_t z=s.find(';',q); if(z==string::npos||s.substr(q+2,z-q-2).find(":=")!=string::npos){ ok=false; break; } string nm; istringstream(s.substr(p,q-p))>>nm; string r=s.substr(q+2,z-q-2); TT v; Ex ex(r,e); if(!ex.all(v)){ ok=false; break; } e[nm]=v; p=z+1; } } answer("smv",s,hasO?on:dflt("outNode",k),e,t,ok); }
  if(kind==6){ CTX+=" dot"; rc=Cudd_DumpDot(g.m,k,f.data(),I,O,fp); fclose(fp); string s=slurp(fn); map<string,AT> r; auto oo=hasO?on:dflt("F",k); bool ok=dot(s,hasI?in:digits,oo,x,r); map<string,TT> e; for(auto&u:r){ TT v; for(int a=0;a<M;a++) v[a]=u.second[a]==1; e[u.first]=v; } answer("dot",s,oo,e,t,ok); }
  if(kind==7){ CTX+=" davinci"; rc=Cudd_DumpDaVinci(g.m,k,f.data(),I,O,fp); fclose(fp); string s=slurp(fn); map<string,TT> e; bool ok=davinci(s,hasI?in:digits,outs,x,e); answer("davinci",s,outs,e,t,ok); }
  if(rc!=1) viol("export-failed",S("kind %d returned %d",kind,rc)); keep(g,x,f,t,"after an export"); if(!NVIOL) unlink(fn.c_str()); }
static void storeLoad(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t){ int n=g.n,k=f.size(); bool hasN=R.p(.5),hasR=R.p(.5),hasA=R.p(.5); vector<string> vn=names(n,"va"),rn=names(k,"ro"); auto cv=cs(vn),cr=cs(rn); vector<int> aux(n); for(int i=0;i<n;i++) aux[i]=i; shuffle(aux.begin(),aux.end(),R.g); int off=R(3)*R(5); for(int&a:aux) a+=off;
  int mode="ABD"[R(3)]; Dddmp_VarInfoType vi=(Dddmp_VarInfoType)R(5); if(vi==DDDMP_VARAUXIDS&&!hasA) vi=DDDMP_VARIDS; if(vi==DDDMP_VARNAMES&&!hasN) vi=DDDMP_VARDEFAULT; string fn=DIR+"/s.bdd",fn2=fn; bool useFp=R.p(.4); bool single=k==1&&R.p(.5); char*dn=R.p(.5)?(char*)"dd":nullptr;
  FILE*fp=useFp?fopen(fn.c_str(),"wb"):nullptr; CTX+=S(" store mode %c varinfo %d names %d rootnames %d aux %d fp %d",mode,(int)vi,hasN,hasR,hasA,useFp); int rc;
  if(single){ hasR=false; rc=Dddmp_cuddBddStore(g.m,dn,f[0],hasN?cv.data():nullptr,hasA?aux.data():nullptr,mode,vi,(char*)fn.c_str(),fp); } else rc=Dddmp_cuddBddArrayStore(g.m,dn,k,f.data(),hasR?cr.data():nullptr,hasN?cv.data():nullptr,hasA?aux.data():nullptr,mode,vi,(char*)fn.c_str(),fp); if(fp) fclose(fp);
  if(rc!=DDDMP_SUCCESS){ viol("store-failed","not stored"); return; } keep(g,x,f,t,"after a store"); cnt("stores");
  if(R.p(.25)){ // conversion between the two forms
    string s=slurp(fn); bool bin=s.find("\n.mode B")!=string::npos||s.find(".mode B")!=string::npos; string fo=DIR+"/c.bdd"; CTX+=bin?" converted to text":" converted to binary"; int r=bin?Dddmp_Bin2Text((char*)fn.c_str(),(char*)fo.c_str()):Dddmp_Text2Bin((char*)fn.c_str(),(char*)fo.c_str()); if(r!=DDDMP_SUCCESS){ viol("conversion-failed","not converted"); return; } string s2=slurp(fo); if((s2.find(".mode B")!=string::npos)==bin) viol("conversion-failed","mode unchanged"); fn2=fo; cnt("conversions"); mode='D'; vi=DDDMP_VARDEFAULT; }
  bool other=R.p(.7); Mg*h=other?new Mg(n+(R.p(.3)?R(5):0)):&g; Map y=x; Dddmp_VarMatchType mt=(Dddmp_VarMatchType)R(5); if(fn2!=fn){ mt=(Dddmp_VarMatchType)(R.p(.5)?DDDMP_VAR_MATCHIDS:DDDMP_VAR_COMPOSEIDS); } if(mt==DDDMP_VAR_MATCHAUXIDS&&!hasA) mt=DDDMP_VAR_MATCHIDS; if(mt==DDDMP_VAR_MATCHNAMES&&!hasN) mt=DDDMP_VAR_MATCHIDS; if(vi==DDDMP_VARNAMES&&0) mt=DDDMP_VAR_MATCHIDS;
  int hn=h->n; vector<int> perm(hn); for(int i=0;i<hn;i++) perm[i]=i; shuffle(perm.begin(),perm.end(),R.g); vector<string> hv(hn); vector<int> ha(hn); vector<int> comp(n); char**mnames=nullptr; int*maux=nullptr,*mcomp=nullptr; vector<char*> hc;
  if(mt==DDDMP_VAR_MATCHPERMIDS) for(int i=0;i<N;i++) y[i]=Cudd_ReadInvPerm(h->m,Cudd_ReadPerm(g.m,x[i]));
  if(mt==DDDMP_VAR_MATCHNAMES){ for(int i=0;i<hn;i++) hv[perm[i]]=i<n?vn[i]:S("other%d",i); hc=cs(hv); mnames=hc.data(); for(int i=0;i<N;i++) y[i]=perm[x[i]]; }
  if(mt==DDDMP_VAR_MATCHAUXIDS){ for(int i=0;i<hn;i++) ha[perm[i]]=i<n?aux[i]:100+i; maux=ha.data(); for(int i=0;i<N;i++) y[i]=perm[x[i]]; }
  if(mt==DDDMP_VAR_COMPOSEIDS){ for(int i=0;i<n;i++) comp[i]=perm[i]; mcomp=comp.data(); for(int i=0;i<N;i++) y[i]=perm[x[i]]; }
  CTX+=S(" load %s match %d",other?"elsewhere":"here",(int)mt); int lm=R.p(.5)?DDDMP_MODE_DEFAULT:mode=='D'?DDDMP_MODE_DEFAULT:mode; vector<DdNode*> r; vector<int> which; FILE*lp=R.p(.4)?fopen(fn2.c_str(),"rb"):nullptr;
  if(k==1&&R.p(.5)){ DdNode*d=Dddmp_cuddBddLoad(h->m,mt,mnames,maux,mcomp,lm,(char*)fn2.c_str(),lp); if(d){ r={d}; which={0}; } }
  else { bool byName=hasR&&R.p(.6)&&fn2==fn; vector<int> o(k); for(int i=0;i<k;i++) o[i]=i; if(byName) shuffle(o.begin(),o.end(),R.g); vector<char*> want; for(int i:o) want.push_back(cr[i]); DdNode**roots=nullptr; int c=Dddmp_cuddBddArrayLoad(h->m,byName?DDDMP_ROOT_MATCHNAMES:DDDMP_ROOT_MATCHLIST,byName?want.data():nullptr,mt,mnames,maux,mcomp,lm,(char*)fn2.c_str(),lp,&roots); if(byName) CTX+=" roots by name"; if(c!=k) viol("load-failed",S("%d roots loaded instead of %d",c,k)); else for(int i=0;i<k;i++){ r.push_back(roots[i]); which.push_back(o[i]); } if(roots) free(roots); }
  if(lp) fclose(lp); if(r.empty()&&!NVIOL) viol("load-failed","nothing loaded"); cnt("loads"); cnt(S("match_%d",(int)mt)); if(other) cnt("loads_into_another_manager");
  for(size_t i=0;i<r.size();i++){ same("loaded-wrong",*h,y,r[i],t[which[i]]); if(!other&&y==x&&r[i]!=f[which[i]]) viol("loaded-not-canonical","a reloaded diagram is a different node"); } for(auto d:r) if(!NVIOL) Cudd_RecursiveDeref(h->m,d); h->audit("after a load"); if(!NVIOL) keep(g,x,f,t,"after a load"); if(other){ if(!NVIOL) h->close(); delete h; } if(!NVIOL) unlink(fn.c_str()); if(fn2!=fn) unlink(fn2.c_str()); }
static const double VALS[]={0,1,-1,2,0.5,3,-7.25,1e10,123456.789,0.1,1e-5,17,255,1234567};
static void adds(){ Mg g(N+R(4)); Map x=mapping(g.n); int k=1+R(3); vector<AT> t(k); vector<DdNode*> f; for(auto&a:t){ a.resize(M); int c=1+R(5); vector<double> v; for(int i=0;i<c;i++) v.push_back(VALS[R(14)]); TT s1=rtt(),s2=rtt(),s3=rtt(); for(int i=0;i<M;i++) a[i]=v[(s1[i]+2*s2[i]+4*s3[i])%c]; f.push_back(mka(g,x,a,N-1,0,M)); } auto chk=[&](const char*w,Mg&h,const Map&y,vector<DdNode*>&r){ for(int i=0;i<k;i++){ cnt("comparisons"); AT u=rda(h,y,r[i]); for(int a=0;a<M;a++) if(u[a]!=t[i][a]){ viol(w,S("value %.17g instead of %.17g",u[a],t[i][a])); return; } } }; chk("harness",g,x,f);
  int kind=R(2); string fn=DIR+"/a.add"; if(kind==0){ bool hasN=R.p(.5),hasR=R.p(.5),hasA=R.p(.5); vector<string> vn=names(g.n,"va"),rn=names(k,"ro"); auto cv=cs(vn),cr=cs(rn); vector<int> aux(g.n); for(int i=0;i<g.n;i++) aux[i]=g.n-i; Dddmp_VarInfoType vi=(Dddmp_VarInfoType)R(5); if(vi==DDDMP_VARAUXIDS&&!hasA) vi=DDDMP_VARIDS; if(vi==DDDMP_VARNAMES&&!hasN) vi=DDDMP_VARDEFAULT; CTX+=S(" add store varinfo %d",(int)vi); int rc; if(k==1&&R.p(.5)) rc=Dddmp_cuddAddStore(g.m,(char*)"dd",f[0],hasN?cv.data():nullptr,hasA?aux.data():nullptr,'A',vi,(char*)fn.c_str(),nullptr); else rc=Dddmp_cuddAddArrayStore(g.m,nullptr,k,f.data(),hasR?cr.data():nullptr,hasN?cv.data():nullptr,hasA?aux.data():nullptr,'A',vi,(char*)fn.c_str(),nullptr); if(rc!=DDDMP_SUCCESS) viol("store-failed","ADD not stored"); else { chk("source-changed",g,x,f); g.audit("after a store"); Mg h(g.n+R(3)); DdNode**r=nullptr; vector<DdNode*> v; if(k==1&&R.p(.5)){ DdNode*d=Dddmp_cuddAddLoad(h.m,DDDMP_VAR_MATCHIDS,nullptr,nullptr,nullptr,DDDMP_MODE_DEFAULT,(char*)fn.c_str(),nullptr); if(d) v={d}; } else { int c=Dddmp_cuddAddArrayLoad(h.m,DDDMP_ROOT_MATCHLIST,nullptr,DDDMP_VAR_MATCHIDS,nullptr,nullptr,nullptr,DDDMP_MODE_TEXT,(char*)fn.c_str(),nullptr,&r); if(c==k) v.assign(r,r+k); if(r) free(r); } if((int)v.size()!=k) viol("load-failed","ADDs not loaded"); else { chk("add-loaded-wrong",h,x,v); for(auto d:v) Cudd_RecursiveDeref(h.m,d); h.audit("after a load"); h.close(); } } cnt("add_stores"); if(!NVIOL) unlink(fn.c_str()); }
  if(kind==1){ CTX+=" add dot"; FILE*fp=fopen(fn.c_str(),"w"); int rc=Cudd_DumpDot(g.m,k,f.data(),nullptr,nullptr,fp); fclose(fp); string s=slurp(fn); map<string,AT> r; vector<string> dg; for(int i=0;i<g.n;i++) dg.push_back(to_string(i)); auto oo=names(k,"F",true); bool ok=rc==1&&dot(s,dg,oo,x,r); cnt("format_add_dot"); if(!ok) viol("add-dot-unreadable",s.substr(0,900)); else for(int i=0;i<k;i++) for(int a=0;a<M;a++) if(fabs(r[oo[i]][a]-t[i][a])>1e-5*fabs(t[i][a])){ viol("add-dot-wrong",S("value %.17g instead of %.17g",r[oo[i]][a],t[i][a])); i=k; break; } cnt("comparisons",k); if(!NVIOL) unlink(fn.c_str()); }
  if(!NVIOL){ for(auto d:f) Cudd_RecursiveDeref(g.m,d); g.close(); } }
static void transfer(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t){ CTX+=" transfer"; Mg h(R.p(.7)?g.n:g.n+3); vector<DdNode*> r; for(size_t i=0;i<f.size();i++){ DdNode*d=Cudd_bddTransfer(g.m,h.m,f[i]); if(!d){ viol("transfer-failed","null"); return; } Cudd_Ref(d); r.push_back(d); } cnt("transfers"); if(R.p(.3)) h.shuffle(); for(size_t i=0;i<f.size();i++) same("transferred-wrong",h,x,r[i],t[i]); h.audit("after a transfer"); keep(g,x,f,t,"after a transfer"); if(!NVIOL){ for(auto d:r) Cudd_RecursiveDeref(h.m,d); h.close(); } }
static void cnf(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t){ // constants have no clauses
  TT all=ALL; bool any=false; for(auto&u:t){ if(u.none()||u==ALL) return; all&=u; any=true; } if(!any) return; int n=g.n,k=f.size(); vector<int> ids(n),aux(n),cid(n); for(int i=0;i<n;i++){ ids[i]=aux[i]=i; cid[i]=i+1; } if(R.p(.5)) shuffle(cid.begin(),cid.end(),R.g); vector<string> vn=names(n,"va"); auto cv=cs(vn); bool hasN=R.p(.5); Dddmp_DecompCnfStoreType mode=(Dddmp_DecompCnfStoreType)R(3); int e=R.p(.5)?-1:1+R(3),pl=R.p(.5)?-1:1+R(4); int init=n+1+R(4); bool noHead=R.p(.3); string fn=DIR+"/c.cnf"; int cl=-1,nv=-1; CTX+=S(" cnf mode %d edges %d path %d first %d header %d",(int)mode,e,pl,init,!noHead); int rc=k==1&&R.p(.5)?Dddmp_cuddBddStoreCnf(g.m,f[0],mode,noHead,hasN?cv.data():nullptr,ids.data(),aux.data(),cid.data(),init,e,pl,(char*)fn.c_str(),nullptr,&cl,&nv):Dddmp_cuddBddArrayStoreCnf(g.m,f.data(),k,mode,noHead,hasN?cv.data():nullptr,ids.data(),aux.data(),cid.data(),init,e,pl,(char*)fn.c_str(),nullptr,&cl,&nv); if(rc!=DDDMP_SUCCESS){ viol("cnf-store-failed","not stored"); return; } keep(g,x,f,t,"after a CNF store"); if(NVIOL) return;
  string s=slurp(fn),l; istringstream w(s); vector<vector<int>> C; int pv=-1,pc=-1; bool ok=true; while(getline(w,l)){ if(l.empty()||l[0]=='c') continue; if(l[0]=='p'){ if(sscanf(l.c_str(),"p cnf %d %d",&pv,&pc)!=2) ok=false; continue; } istringstream z(l); vector<int> c; int a; bool end=false; while(z>>a){ if(end) ok=false; if(!a) end=true; else c.push_back(a); } if(!end) ok=false; C.push_back(c); } cnt("format_cnf"); cnt(S("cnf_mode_%d",(int)mode)); int mx=0; for(auto&c:C) for(int a:c) mx=max(mx,abs(a)); if(!ok){ viol("cnf-unreadable",s.substr(0,900)); return; } if(pv!=-1||!noHead) if(pc!=(int)C.size()||mx>pv||cl!=(int)C.size()) viol("cnf-counts",S("header %d variables %d clauses, reported %d clauses, found %d and %zu",pv,pc,cl,mx,C.size()));
  // project: fix the inputs, solve for the rest by propagation and branching
  map<int,int> lg; for(int i=0;i<N;i++) lg[cid[x[i]]]=i; set<int> inputs(cid.begin(),cid.end()); for(int a=0;a<M;a++){ vector<int> val(mx+2,0); for(auto&q:lg) if(q.first<=mx) val[q.first]=(a>>q.second&1)?1:-1; function<bool(vector<int>)> sat=[&](vector<int> v)->bool{ bool ch=true; while(ch){ ch=false; for(auto&c:C){ int un=0,last=0; bool s1=false; for(int b:c){ int y=v[abs(b)]*(b>0?1:-1); if(y>0){ s1=true; break; } if(!y){ un++; last=b; } } if(s1) continue; if(!un) return false; if(un==1){ v[abs(last)]=last>0?1:-1; ch=true; } } } int b=0; for(auto&c:C) for(int q:c) if(!v[abs(q)]){ b=abs(q); } if(!b) return true; for(int y:{1,-1}){ auto u=v; u[b]=y; if(sat(u)) return true; } return false; }; bool got=sat(val); cnt("comparisons"); if(got!=(bool)all[a]){ viol("cnf-wrong",S("assignment %d: %s ",a,got?"satisfiable":"unsatisfiable")+s.substr(0,1200)); break; } }
  if(!noHead&&!NVIOL){ Mg h(n+8+R(3)); DdNode**r=nullptr; int nr=-1; int lm=k>1?1:1+R(2); CTX+=S(" load mode %d",lm); rc=k==1&&R.p(.5)?Dddmp_cuddBddLoadCnf(h.m,DDDMP_VAR_MATCHIDS,nullptr,nullptr,nullptr,lm,(char*)fn.c_str(),nullptr,&r,&nr):Dddmp_cuddBddArrayLoadCnf(h.m,DDDMP_ROOT_MATCHLIST,nullptr,DDDMP_VAR_MATCHIDS,nullptr,nullptr,nullptr,lm,(char*)fn.c_str(),nullptr,&r,&nr); if(rc!=DDDMP_SUCCESS||nr<1){ viol("cnf-load-failed",S("returned %d with %d roots",rc,nr)); } else { cnt("cnf_loads"); DdNode*p=Cudd_ReadOne(h.m); Cudd_Ref(p); for(int i=0;i<nr;i++){ DdNode*q=Cudd_bddAnd(h.m,p,r[i]); Cudd_Ref(q); Cudd_RecursiveDeref(h.m,p); p=q; } if(lm==1){ DdNode*cu=Cudd_ReadOne(h.m); Cudd_Ref(cu); set<int> keepv(x.begin(),x.end()); for(int i=0;i<Cudd_ReadSize(h.m);i++) if(!keepv.count(i)){ DdNode*c2=Cudd_bddAnd(h.m,cu,Cudd_bddIthVar(h.m,i)); Cudd_Ref(c2); Cudd_RecursiveDeref(h.m,cu); cu=c2; } DdNode*q=Cudd_bddExistAbstract(h.m,p,cu); Cudd_Ref(q); Cudd_RecursiveDeref(h.m,p); Cudd_RecursiveDeref(h.m,cu); p=q; } same("cnf-loaded-wrong",h,x,p,all); Cudd_RecursiveDeref(h.m,p); if(r) free(r); h.audit("after a CNF load"); } Cudd_Quit(h.m); }
  if(!NVIOL) unlink(fn.c_str()); }
static void matrices(){ int m=1+R(9),n=1+R(9); int kind=R(3); string fn=DIR+"/m.txt"; Mg g(R(10)); int bx=R(3),by,sx,sy; if(R.p(.5)){ sx=sy=2; by=bx+1; } else { sx=sy=1; by=bx+4; } map<pair<int,int>,double> E; int k=R(m*n+1); for(int i=0;i<k;i++) E[{R(m),R(n)}]=kind==1?1:VALS[1+R(10)]; FILE*fp=fopen(fn.c_str(),"w"); CTX+=S(" matrix kind %d %dx%d",kind,m,n);
  if(kind<2){ fprintf(fp,"%d %d\n",m,n); vector<pair<pair<int,int>,double>> v(E.begin(),E.end()); shuffle(v.begin(),v.end(),R.g); for(auto&e:v){ if(kind==0) fprintf(fp,"%d %d %.17g\n",e.first.first,e.first.second,e.second); else fprintf(fp,"%d %d\n",e.first.first,e.first.second); } }
  else { string key="KEYKEYKE"; fprintf(fp,"%-72s%s\n%d %d %d %d %d\n%s %d %d %d %d\n(16I5) (16I5) (5E16.8)\n","title",key.c_str(),3,1,1,1,0,"RUA",m,n,(int)E.size(),0); vector<vector<int>> col(n); for(auto&e:E) col[e.first.second].push_back(e.first.first); int c=1; for(int j=0;j<=n;j++){ fprintf(fp," %d",c); if(j<n) c+=col[j].size(); } fprintf(fp,"\n"); for(auto&q:col) for(int i:q) fprintf(fp," %d",i+1); fprintf(fp,"\n"); for(int j=0;j<n;j++) for(int i:col[j]) fprintf(fp," %.17g",E[{i,j}]); fprintf(fp,"\n"); }
  fclose(fp); fp=fopen(fn.c_str(),"r"); DdNode*e=nullptr,**x=nullptr,**y=nullptr,**xn=nullptr,**yn=nullptr; int nx=0,ny=0,rm=-1,rn=-1,rc; if(kind==0) rc=Cudd_addRead(fp,g.m,&e,&x,&y,&xn,&yn,&nx,&ny,&rm,&rn,bx,sx,by,sy); else if(kind==1) rc=Cudd_bddRead(fp,g.m,&e,&x,&y,&nx,&ny,&rm,&rn,bx,sx,by,sy); else rc=Cudd_addHarwell(fp,g.m,&e,&x,&y,&xn,&yn,&nx,&ny,&rm,&rn,bx,sx,by,sy,0); fclose(fp); cnt(S("matrix_%d",kind));
  if(!rc){ if(kind==2&&E.empty()){ cnt("empty_harwell"); if(!NVIOL) unlink(fn.c_str()); Cudd_Quit(g.m); return; } viol("matrix-unread",slurp(fn)); return; } auto lg=[](int v){ int r=0; while((1<<r)<v) r++; return r; }; if(rm!=m||rn!=n||nx!=lg(m)||ny!=lg(n)) viol("matrix-size",S("%d %d %d %d",rm,rn,nx,ny)); else { for(int i=0;i<nx;i++) if((int)Cudd_NodeReadIndex(x[i])!=bx+i*sx) viol("matrix-variables","row"); for(int i=0;i<ny;i++) if((int)Cudd_NodeReadIndex(y[i])!=by+i*sy) viol("matrix-variables","column"); vector<int> in(Cudd_ReadSize(g.m)+1); for(int i=0;i<1<<nx;i++) for(int j=0;j<1<<ny;j++){ for(int b=0;b<nx;b++) in[bx+b*sx]=i>>(nx-1-b)&1; for(int b=0;b<ny;b++) in[by+b*sy]=j>>(ny-1-b)&1; DdNode*v=Cudd_Eval(g.m,e,in.data()); double got=kind==1?(v==Cudd_ReadOne(g.m)):Cudd_V(v),want=E.count({i,j})?E[{i,j}]:0; cnt("matrix_entries"); if(got!=want){ viol("matrix-wrong",S("entry %d %d is %g instead of %g",i,j,got,want)); i=1<<nx; break; } } }
  g.audit("after a matrix"); if(!NVIOL){ Cudd_RecursiveDeref(g.m,e); for(int i=0;i<nx;i++){ Cudd_RecursiveDeref(g.m,x[i]); if(xn) Cudd_RecursiveDeref(g.m,xn[i]); } for(int i=0;i<ny;i++){ Cudd_RecursiveDeref(g.m,y[i]); if(yn) Cudd_RecursiveDeref(g.m,yn[i]); } free(x); free(y); free(xn); free(yn); g.close(); } if(!NVIOL) unlink(fn.c_str()); }
static void zdds(Mg&g,const Map&x,vector<DdNode*>&f,const vector<TT>&t){ // ZDD dot: evaluated with missing variables zero
  CTX+=" zdd dot"; if(Cudd_ReadZddSize(g.m)==0) if(!Cudd_zddVarsFromBddVars(g.m,1)) return; vector<int> o(g.n); for(int i=0;i<g.n;i++) o[i]=Cudd_ReadInvPerm(g.m,i); Cudd_zddShuffleHeap(g.m,o.data()); vector<DdNode*> z; for(auto d:f){ DdNode*q=Cudd_zddPortFromBdd(g.m,d); if(!q){ viol("zdd","null"); return; } Cudd_Ref(q); z.push_back(q); } string fn=DIR+"/z.dot"; FILE*fp=fopen(fn.c_str(),"w"); int k=f.size(); int rc=Cudd_zddDumpDot(g.m,k,z.data(),nullptr,nullptr,fp); fclose(fp); string s=slurp(fn); istringstream w(s); string l; map<string,string> T,E,root; map<string,int> var; map<string,int> val; int rank=-1; bool in=false; set<string> outs; for(int i=0;i<k;i++) outs.insert(S("F%d",i)); auto q=[](const string&l,size_t&p)->string{ size_t a=l.find('"',p); if(a==string::npos) return ""; size_t b=l.find('"',a+1); if(b==string::npos) return ""; p=b+1; string r=l.substr(a+1,b-a-1); size_t i=r.find_first_not_of(' '),j=r.find_last_not_of(' '); return i==string::npos?"":r.substr(i,j-i+1); };
  while(getline(w,l)){ size_t p=0; if(l.find("[label")!=string::npos){ string n=q(l,p); size_t k=l.find("label = \""); val[n]=atoi(l.c_str()+k+9); } else if(l.rfind("{ rank = same; \"",0)==0){ string n=q(l,p); in=n!="CONST NODES"; rank=atoi(n.c_str()); } else if(l.find("->")!=string::npos){ if(l.find("CONST NODES")!=string::npos||l.find("->")!=l.rfind("->")) continue; string a=q(l,p),b=q(l,p); if(outs.count(a)){ if(l.find("style")!=string::npos) root[a]=b; } else if(l.find("dashed")!=string::npos) E[a]=b; else T[a]=b; } else if(in&&!l.empty()&&l[0]=='"') var[q(l,p)]=rank; else if(!l.empty()&&l[0]=='}') in=false; }
  cnt("format_zdd_dot"); bool ok=rc==1; vector<int> inv(g.n,-1); for(int i=0;i<N;i++) inv[x[i]]=i; for(int i=0;i<k&&ok;i++) for(int a=0;a<M&&ok;a++){ string n=root[S("F%d",i)]; set<int> seen; int gd=0; bool r=true; while(!val.count(n)){ if(!var.count(n)||!T.count(n)||!E.count(n)||++gd>100){ ok=false; break; } int v=var[n]; seen.insert(v); bool b=v<g.n&&inv[v]>=0&&(a>>inv[v]&1); n=b?T[n]:E[n]; } if(!ok) break; r=val[n]==1; for(int j=0;j<N;j++) if((a>>j&1)&&!seen.count(x[j])) r=false; cnt("comparisons"); if(r!=(bool)t[i][a]){ viol("zdd-dot-wrong",s.substr(0,900)); i=k; break; } } if(!ok) viol("zdd-dot-unreadable",s.substr(0,900)); for(auto d:z) Cudd_RecursiveDerefZdd(g.m,d); if(!NVIOL) unlink(fn.c_str()); }
// diagrams with more nodes than fit into two bytes of the binary format: stored and re-loaded into the same manager, they must be the same nodes
static DdNode*tree(DdManager*m,int n,int v,double p){ if(v==n) return R.p(p)?Cudd_ReadOne(m):Cudd_ReadLogicZero(m); DdNode*a=tree(m,n,v+1,p); Cudd_Ref(a); DdNode*b=tree(m,n,v+1,p); Cudd_Ref(b); DdNode*r=Cudd_bddIte(m,Cudd_bddIthVar(m,v),a,b); Cudd_Ref(r); Cudd_RecursiveDeref(m,a); Cudd_RecursiveDeref(m,b); Cudd_Deref(r); return r; }
static void big(){ int n=R.p(.5)?16+R(3):8+R(8); DdManager*m=Cudd_Init(n,0,CUDD_UNIQUE_SLOTS,CUDD_CACHE_SLOTS,0); if(R.p(.3)){ vector<int> o(n); for(int i=0;i<n;i++) o[i]=i; shuffle(o.begin(),o.end(),R.g); Cudd_ShuffleHeap(m,o.data()); }
  DdNode*f[2]; for(int i=0;i<2;i++){ f[i]=tree(m,n,0,.2+.3*R(3)); if(R.p(.5)) f[i]=Cudd_Not(f[i]); Cudd_Ref(f[i]); } string fn=DIR+"/big.dddmp"; long sz=Cudd_SharingSize(f,2); cnt("big_nodes",sz); if(sz>16384) cnt("big_above_16384_nodes");
  for(int mode: {DDDMP_MODE_BINARY,DDDMP_MODE_TEXT}) for(int arr=0;arr<2;arr++){ if(mode==DDDMP_MODE_TEXT&&R.p(.6)) continue; int ok=arr?Dddmp_cuddBddArrayStore(m,NULL,2,f,NULL,NULL,NULL,mode,DDDMP_VARIDS,(char*)fn.c_str(),NULL):Dddmp_cuddBddStore(m,NULL,f[0],NULL,NULL,mode,DDDMP_VARIDS,(char*)fn.c_str(),NULL);
    if(ok!=DDDMP_SUCCESS){ viol("big-store",S("a diagram of %ld nodes could not be stored",sz)); continue; }
    DdNode*g[2]={NULL,NULL}; if(arr){ DdNode**p=NULL; int k=Dddmp_cuddBddArrayLoad(m,DDDMP_ROOT_MATCHLIST,NULL,DDDMP_VAR_MATCHIDS,NULL,NULL,NULL,mode,(char*)fn.c_str(),NULL,&p); if(k==2){ g[0]=p[0]; g[1]=p[1]; } if(p) free(p); } else g[0]=Dddmp_cuddBddLoad(m,DDDMP_VAR_MATCHIDS,NULL,NULL,NULL,mode,(char*)fn.c_str(),NULL);
    for(int i=0;i<=arr;i++) if(g[i]!=f[i]) viol("big-load",S("a diagram of %ld nodes over %d variables was read back as another one (mode %c, root %d)",sz,n,mode,i)); cnt("big_loads"); for(int i=0;i<=arr;i++) if(g[i]) Cudd_RecursiveDeref(m,g[i]); }
  unlink(fn.c_str()); for(int i=0;i<2;i++) Cudd_RecursiveDeref(m,f[i]); int left=Cudd_CheckZeroRef(m); if(left&&!NVIOL) viol("big-refs",S("%d nodes still referenced",left)); Cudd_Quit(m); cnt("rounds"); }
int main(int c,char**v){ uint64_t seed=strtoull(v[1],0,10); int rounds=atoi(v[2]); DIR=v[3]; for(int i=0;i<N;i++) for(int a=0;a<M;a++) if(a>>i&1) V[i][a]=1; ALL.set(); int only=getenv("IO_ONLY")?atoi(getenv("IO_ONLY")):-1;
  for(int r=0;r<rounds&&!NVIOL;r++){ R.g.seed(seed*1000003+r); CTX=S("round %d",r); if(c>4&&r<atoi(v[4])){ big(); continue; } int kind=R(12); if(only>=0) kind=only; if(kind==0){ adds(); continue; } if(kind==1){ matrices(); continue; } Mg g(N+R(5)); Map x=mapping(g.n); int k=1+R(4); vector<TT> t; vector<DdNode*> f; for(int i=0;i<k;i++){ t.push_back(i&&R.p(.15)?(R.p(.5)?t[0]:~t[0]):rtt()); f.push_back(mk(g,x,t[i])); if(!(t[i].none()||t[i]==ALL)) cnt("non_constant_functions"); } for(int i=0;i<k;i++) same("harness",g,x,f[i],t[i]); if(R.p(.2)) { DdNode*d=Cudd_bddXor(g.m,f[0],Cudd_bddIthVar(g.m,0)); Cudd_Ref(d); Cudd_RecursiveDeref(g.m,d); } // dead nodes
    if(kind<6) storeLoad(g,x,f,t); else if(kind<9) textual(g,x,f,t); else if(kind==9) transfer(g,x,f,t); else if(kind==10) cnf(g,x,f,t); else zdds(g,x,f,t);
    if(NVIOL) break; for(auto d:f) Cudd_RecursiveDeref(g.m,d); g.close(); cnt("rounds"); } finish(); }
