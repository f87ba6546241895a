// R02: runs a planner through its programming interface with a configuration given explicitly, to be compared with what the command line selects.
// usage: cli FILE|- seed limit rintanen progression nH kind:invert|rc2:inner:est:count ... gtype weight suboptimal noVisited task taskSeq topo orderPairs layers gi parallel print
//        cli FILE|- seed limit rintanen sat block mutex pruning separate optimise order | bdd | hddl | interactive | translation type force pgb steps downward conf sasfile iterate onlyGenerate realCosts
#include "flags.h"
#include <iostream>
#include <fstream>
#include <string>
#include <vector>
#include <cstdlib>
#include <fringes/OneQueueWAStarFringe.h>
#include "./search/PriorityQueueSearch.h"
#include "Debug.h"
#include "Model.h"
#include "interactivePlanner.h"
#include "sat/sat_planner.h"
#include "Invariants.h"
#include "symbolic_search/automaton.h"
#include "translation/translationController.h"
#include "heuristics/hhSimple.h"
#include "heuristics/hhZero.h"
#include "heuristics/rcHeuristics/hhRC2.h"
#include "VisitedList.h"
using namespace std; using namespace progression;
static vector<string> split(const string&s){ vector<string> r(1); for(char c:s) if(c==':') r.push_back(""); else r.back()+=c; return r; }
int main(int c,char**v){ int a=1; string file=v[a++]; srand(atoi(v[a++])); int limit=atoi(v[a++]); bool rint=atoi(v[a++]); string algo=v[a++];
  Model*m=new Model(true,mtrACTIONS,true,true); m->filename=file; m->rintanenInvariants=rint; ifstream f; if(file!="-") f.open(file); m->read(file=="-"?&cin:&f); searchNode*t=m->prepareTNi(m);
  if(algo=="hddl"){ m->buildOrderingDatastructures(); m->writeToPDDL(file+".d.hddl",file+".p.hddl"); return 0; }
  m->calcSCCs(); m->calcSCCGraph(); m->updateReachability(t); auto flag=[&]{ return atoi(v[a++])!=0; };
  if(algo=="progression"){ int n=atoi(v[a++]); Heuristic**h=new Heuristic*[n]; vector<string> spec; for(int i=0;i<n;i++){ string s=v[a++]; h[i]=nullptr; for(int j=0;j<i;j++) if(spec[j]==s) h[i]=h[j]; spec.push_back(s); if(h[i]) continue; vector<string> w=split(s); bool inv=w.size()>1&&w[1]=="1";
      if(w[0]=="zero") h[i]=new hhZero(m,i); else if(w[0]=="modDepth") h[i]=new hhModDepth(m,i,inv); else if(w[0]=="mixedModDepth") h[i]=new hhMixedModDepth(m,i,inv); else if(w[0]=="cost") h[i]=new hhCost(m,i,inv);
      else { eEstimate e=w[2]=="cost"?estCOSTS:w[2]=="mixed"?estMIXED:estDISTANCE; bool cc=w[3]=="1"; if(w[1]=="lmc") h[i]=new hhRC2<hsLmCut>(m,i,e,cc); else if(w[1]=="filter") h[i]=new hhRC2<hsFilter>(m,i,e,cc); else { auto*x=new hhRC2<hsAddFF>(m,i,e,cc); x->sasH->heuristic=w[1]=="add"?sasAdd:sasFF; h[i]=x; } }
      cout<<"@DESC "<<i<<" "<<h[i]->getDescription()<<endl; }
    string g=v[a++]; aStar at=g=="path"?gValPathCosts:g=="action"?gValActionCosts:g=="mixed"?gValActionPathCosts:gValNone; int w=atoi(v[a++]); bool sub=flag(),nov=flag(),th=flag(),ts=flag(),topo=flag(),op=flag(),lay=flag(),gi=flag(),par=flag(),print=flag();
    cout<<"@BEGIN"<<endl; VisitedList visi(m,nov,sub,th,ts,topo,op,lay,gi,par); PriorityQueueSearch s; OneQueueWAStarFringe fr(at,w,n); s.search(m,t,limit,sub,print,h,n,visi,fr); }
  else if(algo=="sat"){ bool bc=flag(),mx=flag(); string p=v[a++]; bool sep=flag(),opt=flag(),ord=flag(); cout<<"@BEGIN"<<endl; extract_invariants_from_parsed_model(m); if(mx) compute_Rintanen_Invariants(m); solve_with_sat_planner(m,bc,mx,p=="none"?SAT_NONE:p=="h2"?SAT_H2:SAT_FF,sep,opt,ord); }
  else if(algo=="bdd"){ cout<<"@BEGIN"<<endl; build_automaton(m); }
  else if(algo=="interactive"){ cout<<"@BEGIN"<<endl; interactivePlanner(m,t); }
  else { string y=v[a++]; TranslationType ty=y=="push"?Push:y=="parallelseq"?ParallelSeq:y=="to"?TO:y=="postrips"?BaseStrips:BaseCondEffects; bool force=flag(); int pgb=atoi(v[a++]),st=atoi(v[a++]); string d=v[a++],dc=v[a++],sf=v[a++]; bool it=flag(),og=flag(),rc=flag(); cout<<"@BEGIN"<<endl; runTranslationPlanner(m,ty,force,pgb,st,d,dc,sf,it,og,rc); }
  cout<<endl<<"@END"<<endl; return 0; }
