// Minimal CDCL SAT solver behind the IPASIR interface, written for monitoring:
//  - IPASIR_SEED randomises decisions and polarities, so that models are diverse
//  - every model is checked against all added clauses
//  - IPASIR_MAXSOLVE / IPASIR_MAXCONF end the process (exit 77 / 78): "no answer", never a verdict
//  - IPASIR_LOG receives one line per call of solve
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
typedef int Lit; // internal 2*v or 2*v+1
inline Lit mk(int x){ return x>0?2*x:2*(-x)+1; }
struct Clause { bool learnt; float act; std::vector<Lit> l; };
int g_solves=0;
struct Solver {
  int nv=0; bool ok=true; std::vector<std::vector<int>> orig; std::vector<int> cur;
  std::vector<Clause*> cls, learnts; std::vector<std::vector<std::pair<Clause*,Lit>>> w; std::vector<signed char> val; // per literal 1 true -1 false 0
  std::vector<int> lvl; std::vector<Clause*> why; std::vector<char> phase, seen; std::vector<double> act; std::vector<Lit> trail; std::vector<int> lim; size_t qh=0; double inc=1;
  std::vector<int> heap, hpos; std::vector<signed char> model; bool sat=false; uint64_t rng=88172645463325252ull; bool randomize=false; long conf=0;
  bool cmp(int a,int b){ return act[a]>act[b]; }
  void up(int i){ int x=heap[i]; while(i>0){ int p=(i-1)/2; if(!cmp(x,heap[p])) break; heap[i]=heap[p]; hpos[heap[i]]=i; i=p; } heap[i]=x; hpos[x]=i; }
  void down(int i){ int x=heap[i]; int n=heap.size(); for(;;){ int c=2*i+1; if(c>=n) break; if(c+1<n&&cmp(heap[c+1],heap[c])) c++; if(!cmp(heap[c],x)) break; heap[i]=heap[c]; hpos[heap[i]]=i; i=c; } heap[i]=x; hpos[x]=i; }
  void hins(int v){ if(hpos[v]>=0) return; heap.push_back(v); hpos[v]=heap.size()-1; up(hpos[v]); }
  int hpop(){ int x=heap[0]; int y=heap.back(); heap.pop_back(); hpos[x]=-1; if(heap.size()){ heap[0]=y; hpos[y]=0; down(0);} return x; }
  uint64_t rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
  ~Solver(){ for(auto c:cls) delete c; for(auto c:learnts) delete c; }
  void grow(int v){ if(v<=nv) return; w.resize(2*v+2); val.resize(2*v+2,0); lvl.resize(v+1,0); why.resize(v+1,nullptr); phase.resize(v+1,0); seen.resize(v+1,0); act.resize(v+1,0); hpos.resize(v+1,-1);
    for(int i=nv+1;i<=v;i++){ if(randomize){ phase[i]=rnd()&1; act[i]=(rnd()%1000)/1e6; } hins(i);} nv=v; }
  void enq(Lit l,Clause*c){ val[l]=1; val[l^1]=-1; lvl[l>>1]=lim.size(); why[l>>1]=c; phase[l>>1]=!(l&1); trail.push_back(l); }
  void attach(Clause*c){ w[c->l[0]^1].push_back({c,c->l[1]}); w[c->l[1]^1].push_back({c,c->l[0]}); }
  void addClause(std::vector<Lit> c){ if(!ok) return; cancel(0); std::sort(c.begin(),c.end()); std::vector<Lit> d; for(size_t i=0;i<c.size();i++){ if(i&&c[i]==c[i-1]) continue; if(d.size()&&d.back()==(c[i]^1)) return; if(val[c[i]]>0) return; if(val[c[i]]<0) continue; d.push_back(c[i]); }
    for(size_t i=1;i<d.size();i++) if((d[i]^1)==d[i-1]) return;
    if(d.empty()){ ok=false; return;} if(d.size()==1){ enq(d[0],nullptr); if(prop()) ok=false; return;} Clause*k=new Clause{false,0,d}; cls.push_back(k); attach(k); }
  Clause* prop(){ while(qh<trail.size()){ Lit p=trail[qh++]; auto&ws=w[p]; size_t i=0,j=0; while(i<ws.size()){ auto x=ws[i]; if(val[x.second]>0){ ws[j++]=ws[i++]; continue;} Clause&c=*x.first; Lit np=p^1; if(c.l[0]==np) std::swap(c.l[0],c.l[1]); i++; Lit f=c.l[0]; if(val[f]>0){ ws[j++]={x.first,f}; continue;} bool found=false; for(size_t k=2;k<c.l.size();k++) if(val[c.l[k]]>=0){ std::swap(c.l[1],c.l[k]); w[c.l[1]^1].push_back({x.first,f}); found=true; break;} if(found) continue; ws[j++]={x.first,f}; if(val[f]<0){ while(i<ws.size()) ws[j++]=ws[i++]; ws.resize(j); qh=trail.size(); return x.first;} enq(f,x.first);} ws.resize(j);} return nullptr; }
  void cancel(int l){ if((int)lim.size()<=l) return; for(int i=(int)trail.size()-1;i>=lim[l];i--){ Lit x=trail[i]; val[x]=val[x^1]=0; hins(x>>1);} trail.resize(lim[l]); lim.resize(l); qh=trail.size(); }
  void bump(int v){ if((act[v]+=inc)>1e100){ for(auto&a:act) a*=1e-100; inc*=1e-100; } if(hpos[v]>=0) up(hpos[v]); }
  int analyze(Clause*c,std::vector<Lit>&out){ out.assign(1,0); int cnt=0; Lit p=-1; int idx=trail.size()-1; std::vector<int> clr; do { if(c->learnt) c->act+=1; for(Lit q:c->l){ if(q==p) continue; int v=q>>1; if(!seen[v]&&lvl[v]>0){ seen[v]=1; clr.push_back(v); bump(v); if(lvl[v]>=(int)lim.size()) cnt++; else out.push_back(q);} } while(!seen[trail[idx]>>1]) idx--; p=trail[idx]; idx--; c=why[p>>1]; seen[p>>1]=0; cnt--; } while(cnt>0); out[0]=p^1;
    size_t j=1; for(size_t i=1;i<out.size();i++){ Clause*r=why[out[i]>>1]; bool red=r!=nullptr; if(r) for(Lit q:r->l) if((q>>1)!=(out[i]>>1)&&!seen[q>>1]&&lvl[q>>1]>0){ red=false; break;} if(!red) out[j++]=out[i]; } out.resize(j);
    int bt=0; for(size_t i=1;i<out.size();i++) if(lvl[out[i]>>1]>bt){ bt=lvl[out[i]>>1]; std::swap(out[1],out[i]); } for(int v:clr) seen[v]=0; return bt; }
  void reduce(){ std::sort(learnts.begin(),learnts.end(),[](Clause*a,Clause*b){return a->act>b->act;}); size_t keep=learnts.size()/2; std::vector<Clause*> nl; for(size_t i=0;i<learnts.size();i++){ Clause*c=learnts[i]; bool locked=val[c->l[0]]>0&&why[c->l[0]>>1]==c; if(i<keep||locked||c->l.size()<=2){ c->act*=0.5; nl.push_back(c);} else { for(int k=0;k<2;k++){ auto&ws=w[c->l[k]^1]; for(size_t q=0;q<ws.size();q++) if(ws[q].first==c){ ws[q]=ws.back(); ws.pop_back(); break;} } delete c; } } learnts.swap(nl); }
  int solve(){ sat=false; if(!ok) return 20; cancel(0); if(prop()){ ok=false; return 20;} long maxc=getenv("IPASIR_MAXCONF")?atol(getenv("IPASIR_MAXCONF")):-1; long rest=100, left=100; size_t maxl=cls.size()/3+2000; std::vector<Lit> lc;
    for(;;){ Clause*c=prop(); if(c){ conf++; if(maxc>=0&&conf>maxc){ printf("IPASIR-LIMIT conflicts\n"); fflush(nullptr); _exit(78);} if(lim.empty()){ ok=false; return 20;} int bt=analyze(c,lc); cancel(bt); if(lc.size()==1) enq(lc[0],nullptr); else { Clause*k=new Clause{true,1,lc}; learnts.push_back(k); attach(k); enq(lc[0],k);} inc/=0.95; left--; }
      else { if(left<=0){ rest=rest*1.1+10; left=rest; cancel(0); continue;} if(learnts.size()>maxl){ reduce(); maxl=maxl*1.1; }
        int v=0; if(randomize&&rnd()%50==0&&heap.size()){ int x=heap[rnd()%heap.size()]; if(!val[2*x]) v=x; } while(!v&&heap.size()){ int x=hpop(); if(!val[2*x]) v=x; }
        if(!v){ model.assign(nv+1,0); for(int i=1;i<=nv;i++) model[i]=val[2*i]>0?1:-1; sat=true; cancel(0); check(); return 10; }
        lim.push_back(trail.size()); bool ph=phase[v]; if(randomize&&rnd()%10==0) ph=rnd()&1; enq(ph?2*v:2*v+1,nullptr); } } }
  void check(){ for(auto&c:orig){ bool t=false; for(int x:c) if((x>0&&model[x]>0)||(x<0&&model[-x]<0)) t=true; if(!t){ fprintf(stderr,"IPASIR-BUG model violates clause\n"); _exit(79);} } }
};
}
extern "C" {
const char* ipasir_signature(){ return "ipasir_mini (monitoring)"; }
void* ipasir_init(){ Solver*s=new Solver; if(const char*e=getenv("IPASIR_SEED")){ unsigned long v=strtoul(e,nullptr,10); if(v){ s->randomize=true; s->rng^=v*0x9E3779B97F4A7C15ull+g_solves*77777ull; for(int i=0;i<8;i++) s->rnd(); } } return s; }
void ipasir_release(void*p){ delete (Solver*)p; }
void ipasir_add(void*p,int32_t l){ Solver*s=(Solver*)p; if(l){ if(l==INT32_MIN||abs(l)>50000000){ fprintf(stderr,"IPASIR-BADLIT %d\n",l); _exit(80);} s->cur.push_back(l); return; } std::vector<Lit> c; for(int x:s->cur){ s->grow(abs(x)); c.push_back(mk(x)); } s->orig.push_back(s->cur); s->cur.clear(); s->addClause(c); }
void ipasir_assume(void*,int32_t){ fprintf(stderr,"IPASIR-BUG assume\n"); _exit(79); }
int ipasir_solve(void*p){ Solver*s=(Solver*)p; if(const char*e=getenv("IPASIR_MAXSOLVE")) if(g_solves>=atoi(e)){ printf("IPASIR-LIMIT solves\n"); fflush(nullptr); _exit(77);} g_solves++; int r=s->solve(); if(const char*e=getenv("IPASIR_LOG")){ FILE*f=fopen(e,"a"); if(f){ fprintf(f,"solve %d vars %d clauses %zu conflicts %ld result %d\n",g_solves,s->nv,s->orig.size(),s->conf,r); fclose(f);} } return r; }
int ipasir_val(void*p,int32_t l){ Solver*s=(Solver*)p; int v=abs(l); if(!s->sat) { fprintf(stderr,"IPASIR-BADSTATE val without model\n"); _exit(80);} if(v==0||v>=(int)s->model.size()) return 0; bool pos=s->model[v]>0; return (l>0)==pos?l:-l; }
int ipasir_failed(void*,int32_t){ return 0; }
void ipasir_set_terminate(void*,void*,int(*)(void*)){}
void ipasir_set_learn(void*,void*,int,void(*)(void*,int32_t*)){}
}
