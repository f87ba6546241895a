// D01 (containers) and D02 (dictionaries): random operation histories against standard containers.
#include "hcommon.hpp"
#include "bIntSet.h"
#include "noDelIntSet.h"
#include "delIterIntSet.h"
#include "bucketSet.h"
#include "IntStack.h"
#include "FlexIntStack.h"
#include "IntPairHeap.h"
#include "IntUtil.h"
#include "StringUtil.h"
#include "HashTable.h"
#include "CompressedSequenceSet.h"
#include "SequenceSet.h"
#include <set>
#include <climits>
using namespace progression;
pair<vector<uint64_t>,int> state2Int(vector<bool>&state);
static string LOG;
static void lg(const string&s){ LOG+=s; LOG+=' '; if(LOG.size()>3000) LOG="... "+LOG.substr(LOG.size()-1500); }
#define EXPECT(c,sig,...) do{ cnt("comparisons"); if(!(c)){ viol(sig,S(__VA_ARGS__)+" after: "+LOG); return; } }while(0)
static int size_(Rng&r){ static int v[]={0,1,1,2,3,4,5,7,8,9,16,31,33,64,65,130}; return v[r(16)]; }
template<class C> static vector<int> iter(C&c,int lim){ vector<int> v; for(int i=c.getFirst();i>=0&&(int)v.size()<=lim;i=c.getNext()) v.push_back(i); return v; }
static string vs(const vector<int>&v){ string s="["; for(int x:v) s+=to_string(x)+","; return s+"]"; }
#define SAMEV(a,b,sig) do{ auto A=(a); auto B=(b); EXPECT(A==B,sig,"iteration gives %s, expected %s",vs(A).c_str(),vs(B).c_str()); }while(0)

static void tb(Rng&r,int ops){ int n=size_(r); bIntSet s; s.init(n); vector<int> m; bool srt=true; lg(S("bIntSet(%d)",n));
  auto has=[&](int x){ return find(m.begin(),m.end(),x)!=m.end(); };
  while(ops--){ int x=n?r(n):0; switch(r(8)){
    case 0: case 1: if(n){ lg(S("insert %d",x)); s.insert(x); if(!has(x)){ m.push_back(x); sort(m.begin(),m.end()); srt=true; } } break;
    case 2: if(n){ lg(S("append %d",x)); s.append(x); if(!has(x)){ m.push_back(x); srt=is_sorted(m.begin(),m.end()); } } break;
    case 3: case 4: if(n){ if(!srt){ lg("sort"); s.sortSet(); sort(m.begin(),m.end()); srt=true; } lg(S("erase %d",x)); s.erase(x); auto it=find(m.begin(),m.end(),x); if(it!=m.end()) m.erase(it); } break;
    case 5: lg("sort"); s.sortSet(); sort(m.begin(),m.end()); srt=true; break;
    case 6: if(!r(6)){ lg("clear"); s.clear(); m.clear(); srt=true; cnt("clears"); } break;
    case 7: SAMEV(iter(s,n+2),m,"bIntSet-iteration"); break; }
    EXPECT(s.getSize()==(int)m.size(),"bIntSet-size","size %d, expected %zu",s.getSize(),m.size()); EXPECT(s.isEmpty()==m.empty(),"bIntSet-empty","isEmpty wrong");
    if(n){ int y=r(n); EXPECT(s.get(y)==has(y),"bIntSet-get","get(%d) is %d",y,(int)s.get(y)); } }
  SAMEV(iter(s,n+2),m,"bIntSet-iteration"); cnt("histories_bIntSet"); }

static void tn(Rng&r,int ops){ const int K=4; int n[K]; vector<noDelIntSet*> s(K); vector<vector<int>> m(K); for(int i=0;i<K;i++){ n[i]=size_(r); s[i]=new noDelIntSet(); s[i]->init(n[i]); lg(S("S%d=noDelIntSet(%d)",i,n[i])); }
  auto has=[&](int k,int x){ return find(m[k].begin(),m[k].end(),x)!=m[k].end(); };
  auto so=[](vector<int> v){ sort(v.begin(),v.end()); return v; };
  auto uni=[&](int a,int b){ set<int> t(m[a].begin(),m[a].end()); t.insert(m[b].begin(),m[b].end()); return vector<int>(t.begin(),t.end()); };
  auto inter=[&](int a,int b){ vector<int> t; for(int x:so(m[a])) if(has(b,x)) t.push_back(x); return t; };
  auto minus_=[&](int a,int b){ vector<int> t; for(int x:so(m[a])) if(!has(b,x)) t.push_back(x); return t; };
  while(ops--){ int k=r(K); int x=n[k]?r(n[k]):0; switch(r(10)){
    case 0: case 1: case 2: case 3: if(n[k]){ lg(S("S%d.insert %d",k,x)); s[k]->insert(x); if(!has(k,x)) m[k].push_back(x); } break;
    case 4: if(!r(4)){ lg(S("S%d.clear",k)); s[k]->clear(); m[k].clear(); cnt("clears"); } break;
    case 5: SAMEV(iter(*s[k],n[k]+2),m[k],"noDelIntSet-iteration"); break;
    case 6: lg(S("S%d.sort",k)); s[k]->sort(); m[k]=so(m[k]); break;
    case 7: { lg(S("S%d.clone",k)); noDelIntSet*c=s[k]->clone(); SAMEV(iter(*c,n[k]+2),m[k],"noDelIntSet-clone"); if(n[k]){ c->insert(x); EXPECT(s[k]->get(x)==has(k,x),"noDelIntSet-clone","inserting into the clone changed the original"); } delete c; break; }
    case 8: { int b=r(K); int o=r(3); lg(S("new S%d %s S%d",k,o==0?"u":o==1?"n":"-",b)); noDelIntSet*c=o==0?s[k]->setUnion(s[b]):o==1?s[k]->setIntersection(s[b]):s[k]->setMinus(s[b]); SAMEV(so(iter(*c,300)),o==0?uni(k,b):o==1?inter(k,b):minus_(k,b),o==0?"noDelIntSet-union":o==1?"noDelIntSet-intersection":"noDelIntSet-minus"); delete c; cnt("set_operations"); break; }
    case 9: { int a=r(K),b=r(K); if(a==k||b==k||n[k]<n[a]||n[k]<n[b]) break; int o=r(3); lg(S("S%d = S%d %s S%d",k,a,o==0?"u":o==1?"n":"-",b)); if(o==0) s[a]->setUnion(s[k],s[b]); else if(o==1) s[a]->setIntersection(s[k],s[b]); else s[a]->setMinus(s[k],s[b]);
      auto e=o==0?uni(a,b):o==1?inter(a,b):minus_(a,b); auto g=iter(*s[k],n[k]+2); SAMEV(so(g),e,o==0?"noDelIntSet-union":o==1?"noDelIntSet-intersection":"noDelIntSet-minus"); m[k]=g; cnt("set_operations"); break; } }
    for(int q=0;q<K;q++){ EXPECT(s[q]->getSize()==(int)m[q].size(),"noDelIntSet-size","S%d has size %d, expected %zu",q,s[q]->getSize(),m[q].size()); EXPECT(s[q]->isEmpty()==m[q].empty(),"noDelIntSet-empty","isEmpty wrong"); if(n[q]){ int y=r(n[q]); EXPECT(s[q]->get(y)==has(q,y),"noDelIntSet-get","S%d.get(%d) is %d",q,y,(int)s[q]->get(y)); } } }
  for(auto x:s) delete x; cnt("histories_noDelIntSet"); }

static void td(Rng&r,int ops){ int n=size_(r); delIterIntSet s; s.init(n); vector<int> m; lg(S("delIterIntSet(%d)",n));
  auto has=[&](int x){ return find(m.begin(),m.end(),x)!=m.end(); }; auto so=[](vector<int> v){ sort(v.begin(),v.end()); return v; };
  while(ops--){ int x=n?r(n):0; switch(r(8)){
    case 0: case 1: case 2: case 3: if(n){ lg(S("insert %d",x)); s.insert(x); if(!has(x)) m.push_back(x); } break;
    case 4: if(!r(4)){ lg("clear"); s.clear(); m.clear(); cnt("clears"); } break;
    case 5: SAMEV(so(iter(s,n+2)),so(m),"delIterIntSet-iteration"); break;
    case 6: case 7: { // iterate, deleting some: every element present at the start is visited exactly once
      vector<int> vis,rest; int i=s.getFirst(); double p=r(3)*.5; while(i>=0&&(int)vis.size()<=n+2){ vis.push_back(i); if(r.p(p)){ lg(S("del %d",i)); i=s.delCurrentGetNext(); cnt("deletions_while_iterating"); } else { rest.push_back(i); i=s.getNext(); } }
      SAMEV(so(vis),so(m),"delIterIntSet-deleting-iteration"); m=rest; break; } }
    EXPECT(s.getSize()==(int)m.size(),"delIterIntSet-size","size %d, expected %zu",s.getSize(),m.size()); EXPECT(s.isEmpty()==m.empty(),"delIterIntSet-empty","isEmpty wrong");
    if(n){ int y=r(n); EXPECT(s.get(y)==has(y),"delIterIntSet-get","get(%d) is %d",y,(int)s.get(y)); } }
  SAMEV(so(iter(s,n+2)),so(m),"delIterIntSet-iteration"); cnt("histories_delIterIntSet"); }

static void tk(Rng&r,int ops){ int n=size_(r); bucketSet s; s.init(n); set<int> m; lg(S("bucketSet(%d)",n));
  while(ops--){ int x=n?r(n):0; switch(r(9)){
    case 0: case 1: case 2: if(n){ lg(S("insert %d",x)); s.insert(x); m.insert(x); } break;
    case 3: case 4: if(n){ lg(S("erase %d",x)); s.erase(x); m.erase(x); } break;
    case 5: if(!r(5)){ lg("clear"); s.clear(); m.clear(); cnt("clears"); } break;
    case 6: SAMEV(iter(s,n+2),vector<int>(m.begin(),m.end()),"bucketSet-iteration"); break;
    case 7: { int k=r(n+2); vector<int> g,e; int i=s.removeFirst(); while(i>=0&&(int)g.size()<=n+2){ g.push_back(i); if(!k--) break; i=s.removeNext(); } for(size_t q=0;q<g.size()&&!m.empty();q++){ e.push_back(*m.begin()); m.erase(m.begin()); } lg(S("remove %zu",g.size())); SAMEV(g,e,"bucketSet-remove"); EXPECT(g.size()==e.size(),"bucketSet-remove","too many removed"); if(i<0) EXPECT(m.empty(),"bucketSet-remove","removal ended with %zu left",m.size()); cnt("removing_iterations"); break; }
    case 8: if(n){ vector<int> e(m.begin(),m.end()); int i=s.getFirst(); for(size_t q=0;q<e.size();q++){ EXPECT(i==e[q],"bucketSet-iteration","element %d, expected %d",i,e[q]); s.get(r(n)); i=s.getNext(); } EXPECT(i<0,"bucketSet-iteration","iteration did not end"); } break; }
    EXPECT(s.getSize()==(int)m.size(),"bucketSet-size","size %d, expected %zu",s.getSize(),m.size()); EXPECT(s.isEmpty()==m.empty(),"bucketSet-empty","isEmpty wrong");
    if(n){ int y=r(n); EXPECT(s.get(y)==(m.count(y)>0),"bucketSet-get","get(%d) is %d",y,(int)s.get(y)); } }
  cnt("histories_bucketSet"); }

template<class T> static void ts(Rng&r,int ops,const char*nm,bool flex){ int n=size_(r); T s; s.init(n); vector<int> m; lg(S("%s(%d)",nm,n)); string N=nm;
  while(ops--){ switch(r(9)){
    case 0: case 1: case 2: case 3: if(flex||(int)m.size()<n){ int x=r.p(.2)?(r(2)?INT_MAX:0):r(1000); lg(S("push %d",x)); s.push(x); m.push_back(x); if((int)m.size()>n) cnt("growths"); } break;
    case 4: case 5: case 6: { lg("pop"); int g=s.pop(),e=m.empty()?-1:m.back(); if(!m.empty()) m.pop_back(); EXPECT(g==e,N+"-pop","pop gives %d, expected %d",g,e); break; }
    case 7: if(!r(6)){ lg("clear"); s.clear(); m.clear(); cnt("clears"); } break;
    case 8: SAMEV(iter(s,100000),m,N+"-iteration"); break; }
    EXPECT(s.getSize()==(int)m.size(),N+"-size","size %d, expected %zu",s.getSize(),m.size()); EXPECT(s.isEmpty()==m.empty(),N+"-empty","isEmpty wrong"); }
  while(!m.empty()){ int g=s.pop(); EXPECT(g==m.back(),N+"-pop","pop gives %d, expected %d",g,m.back()); m.pop_back(); } cnt("histories_"+N); }

static void th(Rng&r,int ops){ int n=size_(r); IntPairHeap<int> h(n); multiset<pair<int,int>> m; lg(S("heap(%d)",n)); int mode=r(3);
  while(ops--){ int o=r(10); int lim=mode==0?6:mode==1?5:8; if(o<lim){ int k=r.p(.05)?(r(2)?INT_MAX:INT_MIN):(r(2)?r(8):r(2000)-1000),v=r(50); lg(S("add %d,%d",k,v)); h.add(k,v); m.insert({k,v}); if((int)m.size()>=n) cnt("growths"); }
    else if(o<9){ if(!m.empty()){ lg("pop"); int k=h.topKey(),v=h.topVal(); EXPECT(k==m.begin()->first,"heap-min","top key %d, minimum is %d",k,m.begin()->first); auto it=m.find({k,v}); EXPECT(it!=m.end(),"heap-pair","top is (%d,%d), which is not stored",k,v); m.erase(it); h.pop(); cnt("heap_pops"); } }
    else if(!r(12)){ lg("clear"); h.clear(); m.clear(); cnt("clears"); }
    EXPECT(h.size()==(int)m.size(),"heap-size","size %d, expected %zu",h.size(),m.size()); EXPECT(h.isEmpty()==m.empty(),"heap-empty","isEmpty wrong"); if(!m.empty()) EXPECT(h.topKey()==m.begin()->first,"heap-min","top key %d, minimum is %d",h.topKey(),m.begin()->first); }
  while(!m.empty()){ int k=h.topKey(),v=h.topVal(); auto it=m.find({k,v}); EXPECT(k==m.begin()->first&&it!=m.end(),"heap-min","top is (%d,%d), minimum is %d",k,v,m.begin()->first); m.erase(it); h.pop(); }
  EXPECT(h.isEmpty(),"heap-empty","not empty at the end"); cnt("histories_heap"); }

static void tu(Rng&r,int ops){ IntUtil u; StringUtil su; while(ops--){ int n=r(40); vector<int> v(n); int rg=1+r(r(2)?10:1000); for(int&x:v) x=r(rg)-(r(3)?0:5); LOG.clear(); lg(vs(v));
    vector<int> a=v,e=v; sort(e.begin(),e.end());
    { int lo=n?r(n):0,hi=n?lo+r(n-lo):-1; vector<int> b=v,f=v; if(n){ u.sort(b.data(),lo,hi); sort(f.begin()+lo,f.begin()+hi+1); } EXPECT(b==f,"IntUtil-sort","sort(%d,%d) gives %s",lo,hi,vs(b).c_str()); }
    u.sort(a.data(),0,n-1); EXPECT(a==e,"IntUtil-sort","sort gives %s",vs(a).c_str()); EXPECT(u.isSorted(a.data(),n),"IntUtil-isSorted","sorted list not recognised"); EXPECT(u.isSorted(v.data(),n)==is_sorted(v.begin(),v.end()),"IntUtil-isSorted","wrong");
    vector<int> d=v; int k=u.makeSet(d.data(),n); set<int> st(v.begin(),v.end()); EXPECT(k==(int)st.size()&&vector<int>(d.begin(),d.begin()+k)==vector<int>(st.begin(),st.end()),"IntUtil-makeSet","makeSet gives %d: %s",k,vs(d).c_str()); for(int i=k;i<n;i++) EXPECT(d[i]==-1,"IntUtil-makeSet","rest is %d",d[i]);
    for(int q=0;q<5;q++){ int x=k&&r(2)?d[r(k)]:r(rg+4)-3; int i=u.indexOf(d.data(),0,k-1,x); EXPECT(st.count(x)?(i>=0&&i<k&&d[i]==x):i==-1,"IntUtil-indexOf","indexOf(%d) is %d",x,i); EXPECT(u.containsInt(d.data(),0,k-1,x)==(st.count(x)>0),"IntUtil-containsInt","containsInt(%d) wrong",x); }
    if(k){ int x=d[r(k)]; int*c=u.copyExcluding(d.data(),k,x); vector<int> ex; for(int i=0;i<k;i++) if(d[i]!=x) ex.push_back(d[i]); vector<int> got(c,c+k-1); EXPECT(got==ex,"IntUtil-copyExcluding","without %d: %s",x,vs(got).c_str()); delete[] c; }
    vector<string> ws; string line; int nw=1+r(6); for(int i=0;i<nw;i++){ string w; int l=1+r(6); for(int j=0;j<l;j++) w+=char(33+r(94)); ws.push_back(w); line+=(i?" ":"")+w; } if(r(2)) line+=" "; int wi=r(nw); LOG="line '"+line+"'"; string g=su.getStrX(line,wi); EXPECT(g==ws[wi],"StringUtil-getStrX","word %d is '%s'",wi,g.c_str());
    string lo=line; for(char&c:lo) if(c>='A'&&c<='Z') c+=32; EXPECT(su.toLowerString(line)==lo,"StringUtil-toLower","gives %s",su.toLowerString(line).c_str());
    string cl=su.cleanStr(line); EXPECT(cl.find_first_of(",;][|!()?+-<>")==string::npos&&cl[0]!='_',"StringUtil-cleanStr","gives %s",cl.c_str()); EXPECT(su.cleanStr(line)==cl,"StringUtil-cleanStr","not repeatable");
    cnt("utility_calls"); } cnt("histories_IntUtil"); }

// ---- D02
typedef vector<bool> Bits;
static pair<vector<uint64_t>,int> pack(const Bits&b){ vector<uint64_t> v((b.size()+63)/64); for(size_t i=0;i<b.size();i++) if(b[i]) v[i/64]|=1ull<<(i%64); return {v,(int)((64-b.size()%64)%64)}; }
static string bs(const Bits&b){ string s=to_string(b.size())+":"; for(size_t i=0;i<b.size();i+=4){ int h=0; for(int j=0;j<4&&i+j<b.size();j++) h|=b[i+j]<<j; s+="0123456789abcdef"[h]; } return s; }
struct Gen { Rng&r; vector<Bits> pool; int style; Gen(Rng&r):r(r){ style=r(6); }
  int len(){ static int w[]={1,2,63,64,65,127,128,129,191,192,193,256,320,5,30,100}; int x=r(10); if(style==0) return 64; if(style==1) return 64*(1+r(4)); if(style==2) return 1+r(12); if(x<5) return w[r(16)]; if(x<8) return 1+r(260); return 64*(1+r(5)); }
  Bits next(){ if(!pool.empty()){ Bits b=pool[r(pool.size())]; switch(r(10)){
      case 0: return b;
      case 1: { size_t k=1+r(b.size()); if(r(2)&&b.size()>64) k=64*(1+r(b.size()/64)); b.resize(min(k,b.size())); break; } // prefix
      case 2: case 3: { int l=b.size()+1+r(70); if(r(2)) l=(b.size()/64+1)*64; bool z=r(2),rd=r(2); while((int)b.size()<l) b.push_back(rd?r(2):z); break; } // extension
      case 4: case 5: { int k=r(b.size()); b[k]=!b[k]; break; }
      case 6: { size_t k=min<size_t>(b.size()-1,64*r(b.size()/64+1)); b[k]=!b[k]; break; } // first bit of a block
      case 7: { size_t k=min<size_t>(b.size()-1,64*r(b.size()/64+1)+63); b[k]=!b[k]; break; } // last bit of a block
      case 8: { int k=r(b.size()); for(size_t i=k;i<b.size();i++) b[i]=r(2); break; }
      case 9: { Bits c(len()); double p=r(3)*.5; for(size_t i=0;i<c.size();i++) c[i]=r.p(p); b=c; break; } }
      if(style==0||style==1) b.resize((b.size()+63)/64*64); if(b.size()>700) b.resize(700); pool.push_back(b); return b; }
    Bits c(len()); double p=r(3)*.5; for(size_t i=0;i<c.size();i++) c[i]=r.p(p); pool.push_back(c); return c; } };
template<class T,class P> static void trie(Rng&r,int ops,const char*nm,bool hashed){ string N=nm; Gen g(r); map<Bits,uint64_t> m; T*root=nullptr; int nb=hashed?1+r(7):1; hash_table tab(nb); uint64_t id=0; lg(N);
  auto hf=[&](const Bits&b){ size_t h=0; for(size_t i=0;i<b.size();i++) if(b[i]) h=h*31+i; return h*0x9E3779B97F4A7C15ull; };
  auto acc=[&](const Bits&b)->P*{ Bits bb=b; auto k=pack(b); auto e=state2Int(bb); if(e!=k){ viol("state-packing","packing of "+bs(b)+" loses information"); } T**slot=(T**)(hashed?tab.get(hf(b)):(void**)&root); P*p=nullptr; cnt("accesses"); if(!*slot) *slot=new T(k.first,k.second,p); else (*slot)->insert(k.first,k.second,p); return p; };
  while(ops--){ Bits b=g.next(); lg(bs(b)); P*p=acc(b); auto it=m.find(b); EXPECT(p,N+"-null","no payload for %s",bs(b).c_str());
    if(it==m.end()){ cnt("new_keys"); EXPECT(!*p,N+"-absent","key %s was never inserted but has payload %llu",bs(b).c_str(),(unsigned long long)(uint64_t)*p); m[b]=++id; *p=(P)(id); } else { cnt("known_keys"); EXPECT((uint64_t)*p==it->second,N+"-lost","payload of %s is %llu, stored %llu",bs(b).c_str(),(unsigned long long)(uint64_t)*p,(unsigned long long)it->second); if(!r(3)){ it->second=++id; *p=(P)id; } }
    if(!r(10)||ops<1) for(auto&x:m){ P*q=acc(x.first); EXPECT((uint64_t)*q==x.second,N+"-lost","payload of %s is %llu, stored %llu",bs(x.first).c_str(),(unsigned long long)(uint64_t)*q,(unsigned long long)x.second); cnt("rechecks"); } }
  if(hashed){ for(int i=0;i<nb;i++) delete (T*)tab.table[i]; } else delete root; cnt("histories_"+N); }
static void th2(Rng&r,int ops){ int nb=1+r(r(2)?5:2000); hash_table t(nb); map<size_t,void*> m; while(ops--){ size_t k=r(3)?(size_t)r(5000):((size_t)r.g()); void**s=t.get(k); EXPECT(s==t.get(k%nb),"hash-slot","keys of the same bucket are apart"); auto it=m.find(k%nb); EXPECT(*s==(it==m.end()?nullptr:it->second),"hash-value","slot of %zu does not hold what was stored",k); *s=(void*)(uintptr_t)(1+r(1000)); m[k%nb]=*s; cnt("hash_accesses"); } cnt("histories_hash"); }
static uint64_t SPLIT=0;
int main(int c,char**v){ string mode=v[1]; uint64_t seed=strtoull(v[2],0,10); int n=atoi(v[3]); for(int i=0;i<n&&!NVIOL;i++){ Rng r(seed*1000003+i); LOG=S("seed %llu:",(unsigned long long)(seed*1000003+i)); int ops=5+r(r(3)?60:400);
    if(mode=="d01") switch(r(8)){ case 0: tb(r,ops); break; case 1: tn(r,ops); break; case 2: td(r,ops); break; case 3: tk(r,ops); break; case 4: ts<IntStack>(r,ops,"IntStack",false); break; case 5: ts<FlexIntStack>(r,ops,"FlexIntStack",true); break; case 6: th(r,ops); break; case 7: tu(r,ops/8+1); break; }
    else switch(r(5)){ case 0: case 1: trie<compressed_sequence_trie,void*>(r,ops,"compressed",false); break; case 2: trie<compressed_sequence_trie,void*>(r,ops,"compressed_hashed",true); break; case 3: trie<sequence_trie,payloadType>(r,ops,"sequence",false); break; case 4: th2(r,ops); break; } }
  finish(); }
