// S06: the decomposition tree of the SAT planner, the order of its leafs and its pruning, against the model.  usage: pdt file seed
#include "hcommon.hpp"
#include "Invariants.h"
#include "sat/pdt.h"
#include "sat/sog.h"
#include "sat/sat_planner.h"
bool filter_leafs_ff(vector<PDT*>&, Model*); bool filter_leafs_Rintanen(vector<PDT*>&, Model*, unordered_set<int>*&, int&);
typedef vector<vector<char>> Mat;
static Mat closure(int n, const vector<unordered_set<uint16_t>>& adj, bool rev){ Mat r(n, vector<char>(n)); for(int i=0;i<n&&i<(int)adj.size();i++) for(int j:adj[i]) if(j<n) (rev?r[j][i]:r[i][j])=1; for(int k=0;k<n;k++) for(int i=0;i<n;i++) if(r[i][k]) for(int j=0;j<n;j++) if(r[k][j]) r[i][j]=1; return r; }
struct Meth { vector<int> child, kind, idx; };               // per subtask of the method: the child it is given to, primitive?, index of the task there
struct Node { PDT*n; int id; bool leaf; Mat lt; vector<int> kids; vector<vector<Meth>> m; int firstLeaf, lastLeaf; };
static vector<Node> T; static map<PDT*,int> IX; static Model*M; static vector<Mat> mlt; static map<PDT*,Mat> orders; static bool TO, EFF; static string file_;
static bool kindOf(int a){ return M->numAdds[a]==0&&M->numDels[a]==0; }
static string at(const Node&x){ string r="node ["; for(int p:x.n->path) r+=to_string(p)+" "; return r+"]"; }
static string tasks(PDT*n){ string r="{"; for(int p:n->possiblePrimitives) r+=M->taskNames[p]+" "; for(int a:n->possibleAbstracts) r+=M->taskNames[a]+" "; return r+"}"; }
// assigns the subtasks of method m to the children such that tasks and order agree exactly
static bool match(int m, const vector<array<int,4>>& have, const Mat& lt, vector<int>& as, vector<char>& used, int i){ int k=M->numSubTasks[m]; if(i==k) return true;
  for(int h=0;h<k;h++) if(!used[h]&&have[h][3]==M->subTasks[m][i]){ bool ok=true; for(int j=0;j<i&&ok;j++) ok=mlt[m][i][j]==lt[have[h][0]][have[as[j]][0]]&&mlt[m][j][i]==lt[have[as[j]][0]][have[h][0]]; if(!ok) continue; used[h]=1; as[i]=h; if(match(m,have,lt,as,used,i+1)) return true; used[h]=0; }
  return false; }
static int build(PDT*n){ int id=T.size(); IX[n]=id; T.push_back(Node()); { Node&x=T.back(); x.n=n; x.id=id; x.leaf=n->children.empty(); x.firstLeaf=0; x.lastLeaf=0; } if(T.size()>20000) return id;
  int k=n->children.size(); vector<int> kids; for(int c=0;c<k;c++){ PDT*ch=n->children[c]; if(ch->mother!=n) viol("mother","a child names another node as its mother"); vector<int> p=n->path; p.push_back(c); if(ch->path!=p) viol("path","the path of a child is wrong"); kids.push_back(build(ch)); } T[id].kids=kids; return id; }
static void checkNode(Node&x){ PDT*n=x.n; int k=x.kids.size();
  { set<int> s(n->possiblePrimitives.begin(),n->possiblePrimitives.end()); for(int a:n->possibleAbstracts) s.insert(a); if(s.size()!=n->possiblePrimitives.size()+n->possibleAbstracts.size()) viol("duplicate",at(x)+" lists a task twice: "+tasks(n)); }
  for(int p:n->possiblePrimitives) if(p<0||p>=M->numActions) viol("kind",at(x)+" has an abstract task among its primitives"); for(int a:n->possibleAbstracts) if(a<M->numActions||a>=M->numTasks) viol("kind",at(x)+" has a primitive among its abstract tasks");
  if(EFF){ bool a=false,b=false; for(int p:n->possiblePrimitives) (kindOf(p)?a:b)=true; if(a&&b) viol("mixed",at(x)+" mixes actions with and without effects: "+tasks(n)); }
  if(!n->expanded||NVIOL) return; cnt("nodes_expanded");
  if(!orders.count(n)){ // the order of the children, as of the first time the node is seen
    Mat lt(k,vector<char>(k)); if(TO){ for(int i=0;i<k;i++) for(int j=i+1;j<k;j++) lt[i][j]=1; }
    else { if(!n->sog||n->sog->numberOfVertices!=k){ viol("order","the order of "+at(x)+" has another number of vertices than the node has children"); return; } lt=closure(k,n->sog->adj,false); if(closure(k,n->sog->bdj,true)!=lt) viol("order","predecessors and successors of the children of "+at(x)+" disagree"); for(int i=0;i<k;i++) if(lt[i][i]) viol("cycle","cyclic order of the children of "+at(x)); }
    orders[n]=lt; }
  x.lt=orders[n]; x.m.resize(n->possibleAbstracts.size()); vector<map<pair<int,int>,int>> causes(k); long given=0; if(NVIOL) return;
  for(size_t a=0;a<n->possibleAbstracts.size();a++){ int t=n->possibleAbstracts[a]; for(int mi=0;mi<M->numMethodsForTask[t];mi++){ int m=M->taskToMethods[t][mi]; vector<array<int,4>> have; cnt("methods");
      for(int c=0;c<k;c++){ causePointer*p=n->getListIndexOfChildrenForMethods(a,mi,c); if(!p->present) continue; PDT*ch=n->children[c]; bool prim=p->isPrimitive; size_t ti=p->taskIndex,ci=p->causeIndex; given++;
        if(ti>=(prim?ch->possiblePrimitives.size():ch->possibleAbstracts.size())){ viol("index",S("%s, method %s, child %d: task index out of range",at(x).c_str(),M->methodNames[m].c_str(),c)); return; }
        if(ci>=(prim?ch->numberOfCausesPerPrimitive[ti]:ch->numberOfCausesPerAbstract[ti])){ viol("index",S("%s, method %s, child %d: cause index out of range",at(x).c_str(),M->methodNames[m].c_str(),c)); return; }
        taskCause*tc=prim?ch->getCauseForPrimitive(ti,ci):ch->getCauseForAbstract(ti,ci); if(tc->taskIndex!=(int)a||tc->methodIndex!=mi) viol("cause",S("%s, method %s, child %d: the cause there is another one",at(x).c_str(),M->methodNames[m].c_str(),c));
        have.push_back({c,prim,(int)ti,prim?ch->possiblePrimitives[ti]:ch->possibleAbstracts[ti]}); }
      string what=at(x)+", method "+M->methodNames[m]; if((int)have.size()!=M->numSubTasks[m]){ viol("subtasks",what+S(": %d subtasks, %zu in the children",M->numSubTasks[m],have.size())); return; }
      vector<int> as(have.size()); vector<char> used(have.size()); if(!match(m,have,x.lt,as,used,0)){ string r; for(auto&h:have) r+=S("child %d: ",h[0])+M->taskNames[h[3]]+", "; viol("method",what+": tasks and order of the children do not represent the method: "+r); return; }
      Meth q; for(int h:as){ q.child.push_back(have[h][0]); q.kind.push_back(have[h][1]); q.idx.push_back(have[h][2]); } x.m[a].push_back(q); for(size_t i=0;i<as.size();i++) for(size_t j=0;j<i;j++) cnt(mlt[m][i][j]||mlt[m][j][i]?"ordered_pairs":"unordered_pairs"); } }
  if(k){ if(n->positionOfPrimitivesInChildren.size()!=n->possiblePrimitives.size()){ viol("inherit",at(x)+" does not hand over every primitive"); return; }
    for(size_t p=0;p<n->possiblePrimitives.size();p++){ auto [c,ti,ci]=n->positionOfPrimitivesInChildren[p]; if((int)c>=k||ti>=n->children[c]->possiblePrimitives.size()||ci>=n->children[c]->numberOfCausesPerPrimitive[ti]){ viol("inherit",at(x)+": position of an inherited primitive out of range"); return; }
      if(n->children[c]->possiblePrimitives[ti]!=n->possiblePrimitives[p]) viol("inherit",at(x)+": an action is inherited as another one"); taskCause*tc=n->children[c]->getCauseForPrimitive(ti,ci); if(tc->taskIndex!=-1||tc->methodIndex!=(int)p) viol("cause",at(x)+": the cause of an inherited action is another one"); given++; cnt("inherited"); } }
  long total=0; for(int c=0;c<k;c++){ PDT*ch=n->children[c]; for(size_t i=0;i<ch->possiblePrimitives.size();i++){ total+=ch->numberOfCausesPerPrimitive[i]; if(!ch->numberOfCausesPerPrimitive[i]) viol("uncaused",at(x)+": a child lists a task nothing leads to"); } for(size_t i=0;i<ch->possibleAbstracts.size();i++){ total+=ch->numberOfCausesPerAbstract[i]; if(!ch->numberOfCausesPerAbstract[i]) viol("uncaused",at(x)+": a child lists a task nothing leads to"); } }
  if(total!=given) viol("cause",at(x)+S(": the children have %ld causes, %ld are accounted for",total,given)); cnt("causes",total); }
// order of two leafs: that of the children of their lowest common ancestor
static bool before(PDT*a,PDT*b){ size_t d=0; while(d<a->path.size()&&d<b->path.size()&&a->path[d]==b->path[d]) d++; if(d>=a->path.size()||d>=b->path.size()) return false; PDT*n=T[0].n; for(size_t i=0;i<d;i++) n=n->children[a->path[i]]; return orders[n][a->path[d]][b->path[d]]; }
static void checkLeafs(PDT*root){ vector<PDT*> L,mine; root->getLeafs(L); function<void(PDT*)> go=[&](PDT*n){ if(n->children.empty()) mine.push_back(n); for(PDT*c:n->children) go(c); }; go(root); if(L!=mine){ viol("leafs","the leafs are not those of the tree from left to right"); return; } cnt("leafs",L.size());
  if(TO||L.size()>250) return; SOG*g=root->getLeafSOG(); int n=g->numberOfVertices; if(n!=(int)L.size()||(int)g->leafOfNode.size()!=n){ viol("leaf-order",S("%zu leafs, %d in the leaf order",L.size(),n)); return; } { vector<PDT*> a=g->leafOfNode,b=L; sort(a.begin(),a.end()); sort(b.begin(),b.end()); if(a!=b){ viol("leaf-order","the leaf order has other leafs"); return; } }
  Mat f=closure(n,g->adj,false),b=closure(n,g->bdj,true); if(f!=b) viol("leaf-order","predecessors and successors of the leaf order disagree");
  for(int i=0;i<n&&!NVIOL;i++) for(int j=0;j<n;j++) if(i!=j){ bool w=before(g->leafOfNode[i],g->leafOfNode[j]); cnt(w?"leafs_ordered":"leafs_unordered"); if(w!=(bool)f[i][j]){ viol("leaf-order",S("leafs %d and %d of %d: ordered %d in the tree, %d in the leaf order",i,j,n,(int)w,(int)f[i][j])); break; } }
  g->calcSucessorSets(); g->calcPredecessorSets(); for(int i=0;i<n&&!NVIOL;i++){ set<int> s,p; s.insert(i); p.insert(i); for(int j=0;j<n;j++){ if(f[i][j]) s.insert(j); if(f[j][i]) p.insert(j); } if(set<int>(g->successorSet[i].begin(),g->successorSet[i].end())!=s||set<int>(g->predecessorSet[i].begin(),g->predecessorSet[i].end())!=p) viol("leaf-order","successor or predecessor sets are wrong"); }
  if(root->sog!=g) delete g; }
// what pruning has to leave: tasks and methods that occur in a complete decomposition whose leafs are not pruned
struct Use { vector<char> p,a; vector<vector<char>> m; };
static vector<Use> reference(const vector<vector<char>>&prunedP,const vector<vector<char>>&prunedA){ int N=T.size(); vector<Use> f(N),u(N);
  for(int i=N-1;i>=0;i--){ Node&x=T[i]; PDT*n=x.n; f[i].p.resize(n->possiblePrimitives.size()); f[i].a.resize(n->possibleAbstracts.size()); f[i].m.resize(n->possibleAbstracts.size());
    for(size_t p=0;p<f[i].p.size();p++){ if(x.leaf) f[i].p[p]=!prunedP[i][p]; else { auto [c,ti,ci]=n->positionOfPrimitivesInChildren[p]; f[i].p[p]=f[x.kids[c]].p[ti]; } }
    for(size_t a=0;a<f[i].a.size();a++){ if(!n->expanded) continue; bool any=false; for(auto&q:x.m[a]){ bool ok=!(x.leaf&&prunedA[i][a]); for(size_t s=0;s<q.child.size();s++) ok=ok&&(q.kind[s]?f[x.kids[q.child[s]]].p[q.idx[s]]:f[x.kids[q.child[s]]].a[q.idx[s]]); f[i].m[a].push_back(ok); any|=ok; } f[i].a[a]=any; } }
  for(int i=0;i<N;i++){ u[i].p.assign(f[i].p.size(),0); u[i].a.assign(f[i].a.size(),0); u[i].m.resize(f[i].m.size()); for(size_t a=0;a<f[i].m.size();a++) u[i].m[a].assign(f[i].m[a].size(),0); } for(size_t a=0;a<u[0].a.size();a++) u[0].a[a]=f[0].a[a];
  for(int i=0;i<N;i++){ Node&x=T[i]; for(size_t p=0;p<u[i].p.size();p++) if(u[i].p[p]&&!x.leaf){ auto [c,ti,ci]=x.n->positionOfPrimitivesInChildren[p]; u[x.kids[c]].p[ti]=1; }
    for(size_t a=0;a<u[i].a.size();a++) if(u[i].a[a]) for(size_t m=0;m<u[i].m[a].size();m++) if(f[i].m[a][m]){ u[i].m[a][m]=1; auto&q=x.m[a][m]; for(size_t s=0;s<q.child.size();s++) (q.kind[s]?u[x.kids[q.child[s]]].p[q.idx[s]]:u[x.kids[q.child[s]]].a[q.idx[s]])=1; } }
  return u; }
static void snapshot(vector<vector<char>>&P,vector<vector<char>>&A){ P.assign(T.size(),{}); A=P; for(size_t i=0;i<T.size();i++){ P[i].assign(T[i].n->prunedPrimitives.begin(),T[i].n->prunedPrimitives.end()); A[i].assign(T[i].n->prunedAbstracts.begin(),T[i].n->prunedAbstracts.end()); } }
static void comparePruning(const vector<Use>&u,bool exact,const string&what){ for(size_t i=0;i<T.size()&&!NVIOL;i++){ PDT*n=T[i].n; if(n->prunedPrimitives.size()!=u[i].p.size()||n->prunedAbstracts.size()!=u[i].a.size()){ viol("pruning",at(T[i])+": tables of wrong size"); return; }
    auto cmp=[&](bool pruned,bool used,const string&t){ cnt(pruned?"pruned":"kept"); if(pruned&&used) viol("overpruned",what+": "+at(T[i])+" prunes "+t+", which occurs in a decomposition that remains"); if(exact&&!pruned&&!used) viol("underpruned",what+": "+at(T[i])+" keeps "+t+", which occurs in no decomposition that remains"); };
    for(size_t p=0;p<u[i].p.size();p++) cmp(n->prunedPrimitives[p],u[i].p[p],M->taskNames[n->possiblePrimitives[p]]); for(size_t a=0;a<u[i].a.size();a++){ cmp(n->prunedAbstracts[a],u[i].a[a],M->taskNames[n->possibleAbstracts[a]]); if(n->expanded) for(size_t m=0;m<u[i].m[a].size();m++) cmp(n->prunedMethods[a][m],u[i].m[a][m],"method "+M->methodNames[M->taskToMethods[n->possibleAbstracts[a]][m]]); } } }
// everything that occurs in a totally ordered decomposition that can be executed from the initial state
struct Exec { const ref::Problem&p; map<array<int,3>,map<ref::St,set<ref::St>>> memo; set<tuple<int,int,int,ref::St,ref::St>> done; long work=0; vector<Use> u; bool over=false;
  Exec(const ref::Problem&q):p(q){ u.resize(T.size()); for(size_t i=0;i<T.size();i++){ u[i].p.assign(T[i].n->possiblePrimitives.size(),0); u[i].a.assign(T[i].n->possibleAbstracts.size(),0); u[i].m.resize(u[i].a.size()); for(size_t a=0;a<u[i].a.size();a++) u[i].m[a].assign(M->numMethodsForTask[T[i].n->possibleAbstracts[a]],0); } }
  const set<ref::St>& out(int i,int prim,int idx,ref::St s){ auto&mm=memo[{i,prim,idx}]; auto it=mm.find(s); if(it!=mm.end()) return it->second; set<ref::St> r; if(work++>300000) over=true; Node&x=T[i];
    if(!over){ if(prim){ if(x.leaf){ int a=x.n->possiblePrimitives[idx]; auto mask=[](int*l,int n){ ref::St r=0; for(int i=0;i<n;i++) r|=ref::bit(l[i]); return r; }; ref::St pre=mask(M->precLists[a],M->numPrecs[a]); if((s&pre)==pre) r.insert((s&~mask(M->delLists[a],M->numDels[a]))|mask(M->addLists[a],M->numAdds[a])); } else { auto [c,ti,ci]=x.n->positionOfPrimitivesInChildren[idx]; r=out(x.kids[c],1,ti,s); } }
      else if(x.n->expanded) for(auto&q:x.m[idx]){ set<ref::St> cur={s}; for(int k:seq(q)){ set<ref::St> nx; for(auto t:cur){ auto&o=out(x.kids[q.child[k]],q.kind[k],q.idx[k],t); nx.insert(o.begin(),o.end()); } cur=nx; } r.insert(cur.begin(),cur.end()); } }
    return memo[{i,prim,idx}][s]=r; }
  static vector<int> seq(const Meth&q){ vector<int> o(q.child.size()); for(size_t i=0;i<o.size();i++) o[i]=i; sort(o.begin(),o.end(),[&](int a,int b){ return q.child[a]<q.child[b]; }); return o; }
  void mark(int i,int prim,int idx,ref::St s,ref::St e){ if(over||!done.insert({i,prim,idx,s,e}).second) return; if(work++>300000) over=true; Node&x=T[i]; (prim?u[i].p:u[i].a)[idx]=1;
    if(prim){ if(!x.leaf){ auto [c,ti,ci]=x.n->positionOfPrimitivesInChildren[idx]; mark(x.kids[c],1,ti,s,e); } return; }
    for(size_t m=0;m<x.m[idx].size();m++){ auto&q=x.m[idx][m]; auto o=seq(q); vector<set<ref::St>> f(o.size()+1); f[0]={s}; for(size_t k=0;k<o.size();k++) for(auto t:f[k]){ auto&r=out(x.kids[q.child[o[k]]],q.kind[o[k]],q.idx[o[k]],t); f[k+1].insert(r.begin(),r.end()); }
      if(!f.back().count(e)) continue; u[i].m[idx][m]=1; set<ref::St> good={e}; for(int k=(int)o.size()-1;k>=0;k--){ set<ref::St> g; for(auto t:f[k]){ auto r=out(x.kids[q.child[o[k]]],q.kind[o[k]],q.idx[o[k]],t); for(auto z:r) if(good.count(z)){ g.insert(t); mark(x.kids[q.child[o[k]]],q.kind[o[k]],q.idx[o[k]],t,z); } } good=g; } } } };
static void prune(vector<PDT*>&L,PDT*root,Rng&R,const ref::Problem&p){ vector<vector<char>> P,A;
  auto reset=[&](){ root->resetPruning(M); for(PDT*l:L) for(size_t a=0;a<l->prunedAbstracts.size();a++) l->prunedAbstracts[a]=true; };
  for(int rep=0;rep<3&&!NVIOL;rep++){ reset(); double q=rep==0?0:rep==1?.1:.4; for(PDT*l:L) for(size_t i=0;i<l->prunedPrimitives.size();i++) if(R.p(q)) l->prunedPrimitives[i]=true; snapshot(P,A); auto u=reference(P,A); for(PDT*l:L) l->propagatePruning(M); comparePruning(u,true,rep?"random pruning":"abstract leafs"); cnt("prunings");
    if(rep&&R.p(.5)){ vector<vector<char>> P2; for(PDT*l:L) for(size_t i=0;i<l->prunedPrimitives.size();i++) if(R.p(.1)) l->prunedPrimitives[i]=true; snapshot(P2,A); auto u2=reference(P2,A); for(PDT*l:L) l->propagatePruning(M); comparePruning(u2,true,"second pruning"); cnt("prunings"); } }
  if(!TO||p.nf==0||NVIOL) return; for(int mode=1;mode<=2&&!NVIOL;mode++){ reset(); for(PDT*l:L) l->propagatePruning(M); unordered_set<int>*inv=new unordered_set<int>[2*M->numStateBits]; int add=0;
    for(int r=0;r<20;r++) if(!filter_leafs_ff(L,M)) break; if(mode==2) for(int r=0;r<20;r++) if(!filter_leafs_Rintanen(L,M,inv,add)) break; snapshot(P,A); for(PDT*l:L) l->propagatePruning(M);
    Exec E(p); ref::St s0=ref::mask(p.s0); auto ends=E.out(0,0,0,s0); for(auto e:ends) E.mark(0,0,0,s0,e); if(E.over){ cnt("executions_cut"); delete[] inv; return; } cnt("executions_explored"); cnt("final_states",ends.size()); string w=mode==1?"relaxed reachability":"invariants"; comparePruning(E.u,false,w); if(NVIOL) break; auto u=reference(P,A); comparePruning(u,true,w); long k=0; for(auto&x:P) for(char c:x) k+=c; cnt(mode==1?"pruned_relaxed":"pruned_invariants",k);
    int n=M->numStateBits; for(int i=0;i<2*n&&!NVIOL;i++) for(int b:inv[i]){ int a=i-n; auto h=[&](int l,ref::St s){ return l>=0?(s&ref::bit(l))!=0:(s&ref::bit(-l-1))==0; }; cnt("final_invariants"); for(auto s:ends) if(!h(a,s)&&!h(b,s)){ viol("final-invariant",S("literals %d or %d do not hold in a state reached at the end",a,b)); break; } }
    delete[] inv; } }
static ref::Problem setup(const string&file,Rng&R){ cout.rdbuf(nullptr); ref::Problem p=ref::parse(file); M=new Model(true,mtrACTIONS,true,true); M->filename=file; M->rintanenInvariants=true; ifstream in(file); M->read(&in); in.close();
  extract_invariants_from_parsed_model(M); if(R.p(.7)) compute_Rintanen_Invariants(M); M->calcSCCs(); M->constructSCCGraph(); M->analyseSCCcyclicity();
  mlt.resize(M->numMethods); for(int m=0;m<M->numMethods;m++){ int k=M->numSubTasks[m]; if(k==0) cnt("empty_methods"); Mat r(k,vector<char>(k)); for(int o=0;o+1<M->numOrderings[m];o+=2) r[M->ordering[m][o]][M->ordering[m][o+1]]=1; for(int x=0;x<k;x++) for(int i=0;i<k;i++) if(r[i][x]) for(int j=0;j<k;j++) if(r[x][j]) r[i][j]=1; mlt[m]=r; }
  M->computeTransitiveClosureOfMethodOrderings(); M->buildOrderingDatastructures(); TO=M->isTotallyOrdered; EFF=R.p(.5); cnt(TO?"total_order":"partial_order"); if(EFF) cnt("separate_effectless_leafs"); return p; }
#ifndef PDT_NO_MAIN
int main(int c,char**v){ Rng R(strtoull(v[2],0,10)); ref::Problem p=setup(v[1],R);
  PDT*root=new PDT(M); int steps=R.p(.3)?2:1; for(int K=1;K<=9&&!NVIOL;K+=steps){ root->expandPDTUpToLevel(K,M,EFF); T.clear(); IX.clear(); T.reserve(30000); build(root); if(T.size()>2500){ cnt("trees_cut"); break; } cnt("trees"); cnt("nodes",T.size());
    for(size_t i=0;i<T.size()&&!NVIOL;i++) checkNode(T[i]); if(NVIOL) break; int deep=0; for(auto&x:T){ if((int)x.n->path.size()>deep) deep=x.n->path.size(); if(x.leaf&&(int)x.n->path.size()<K&&!x.n->possibleAbstracts.empty()&&!x.n->expanded) viol("depth",at(x)+S(": abstract tasks left above depth %d",K)); }
    if(NVIOL) break; checkLeafs(root); if(NVIOL) break; vector<PDT*> L; root->getLeafs(L); if(!CNT["empty_methods"]) prune(L,root,R,p); if(deep<K) break; }
  finish(); return 0; }
#endif
