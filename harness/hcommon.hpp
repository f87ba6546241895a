// Shared by the in-process monitors: loads a problem into the engine's Model and, independently, into the reference.
#pragma once
#include "ref.hpp"
#include "Model.h"
#include "ProgressionNetwork.h"
#include <cstdarg>
#include <cstring>
#include <iostream>
#include <memory>
#include <random>
using namespace std;
static map<string,long> CNT; static int NVIOL = 0;
static void cnt(const string&k, long v=1){ CNT[k]+=v; }
static void viol(const string&sig, const string&msg){ if(NVIOL++<5){ string m=msg; for(char&c:m) if(c=='\n') c=' '; printf("\n@VIOL %s|%s\n",sig.c_str(),m.c_str()); fflush(stdout);} }
static void finish(){ printf("\n"); for(auto&c:CNT) printf("@CNT %s %ld\n",c.first.c_str(),c.second); printf("@DONE\n"); fflush(stdout); }
struct Rng { mt19937_64 g; Rng(uint64_t s):g(s){} int operator()(int n){ return n<=0?0:(int)(g()%n); } bool p(double x){ return (g()>>11)*0x1p-53<x; } };
static string S(const char*f,...){ char b[4000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }

struct World { Model* m=nullptr; searchNode* tni=nullptr; ref::Problem p; bool track; eMaintainTaskReachability reach; };
static void load(World&w,const string&file,bool track,eMaintainTaskReachability reach,bool effless,bool onemod){
  w.p=ref::parse(file); w.track=track; w.reach=reach; w.m=new Model(track,reach,effless,onemod); w.m->filename=file; ifstream in(file); w.m->read(&in); w.tni=w.m->prepareTNi(w.m);
  if(reach!=mtrNO){ w.m->calcSCCs(); w.m->calcSCCGraph(); w.m->updateReachability(w.tni); } }

// the task network of a search node as the reference represents it; ps[i] is the plan step of node i
struct Net { ref::St s=0; ref::TN t; vector<planStep*> ps; vector<int> unc; };
static bool net(const searchNode*n,int facts,Net&r,string&err){ r=Net(); for(int i=0;i<facts&&i<(int)n->state.size();i++) if(n->state[i]) r.s|=ref::bit(i);
  if((int)n->state.size()!=facts){ err=S("state has %zu bits, the problem has %d facts",n->state.size(),facts); return false; }
  map<planStep*,int> ix; vector<planStep*> st; function<void(planStep*)> go=[&](planStep*x){ if(ix.count(x)) return; ix[x]=r.ps.size(); r.ps.push_back(x); for(int i=0;i<x->numSuccessors;i++) go(x->successorList[i]); };
  for(int i=0;i<n->numAbstract;i++) go(n->unconstraintAbstract[i]); for(int i=0;i<n->numPrimitive;i++) go(n->unconstraintPrimitive[i]);
  if(r.ps.size()>30){ err="too large"; return false; }
  for(auto x:r.ps){ r.t.task.push_back(x->task); r.t.depth.push_back(0); r.t.pred.push_back(0); }
  for(auto x:r.ps) for(int i=0;i<x->numSuccessors;i++) r.t.pred[ix[x->successorList[i]]]|=1u<<ix[x];
  ref::closeTN(r.t); for(size_t i=0;i<r.ps.size();i++) if(r.t.pred[i]>>i&1){ err="cyclic order"; return false; }
  for(int i=0;i<n->numAbstract;i++) r.unc.push_back(ix[n->unconstraintAbstract[i]]); for(int i=0;i<n->numPrimitive;i++) r.unc.push_back(ix[n->unconstraintPrimitive[i]]); return true; }
// exact isomorphism of labelled partial orders (both transitively closed)
static bool isoGo(const ref::TN&a,const ref::TN&b,vector<int>&map_,uint32_t used,int i){ int n=a.task.size(); if(i==n) return true;
  for(int j=0;j<n;j++) if(!(used>>j&1)&&a.task[i]==b.task[j]&&__builtin_popcount(a.pred[i])==__builtin_popcount(b.pred[j])){ bool ok=true; for(int k=0;k<i&&ok;k++){ if(((a.pred[i]>>k)&1)!=((b.pred[j]>>map_[k])&1)||((a.pred[k]>>i)&1)!=((b.pred[map_[k]]>>j)&1)) ok=false; } if(ok){ map_[i]=j; if(isoGo(a,b,map_,used|1u<<j,i+1)) return true; } } return false; }
static bool iso(ref::TN a,ref::TN b){ if(a.task.size()!=b.task.size()) return false; ref::closeTN(a); ref::closeTN(b); auto sig=[](const ref::TN&t){ vector<pair<int,int>> v; for(size_t i=0;i<t.task.size();i++) v.push_back({t.task[i],__builtin_popcount(t.pred[i])}); sort(v.begin(),v.end()); return v; }; if(sig(a)!=sig(b)) return false; vector<int> m(a.task.size()); return isoGo(a,b,m,0,0); }
static string show(const ref::Problem&p,ref::St s,const ref::TN&t){ string r=S("state %llx.%016llx tasks",(unsigned long long)(s>>64),(unsigned long long)s); for(size_t i=0;i<t.task.size();i++) r+=S(" %zu:%s<%x",i,p.tname[t.task[i]].c_str(),t.pred[i]); return r; }
