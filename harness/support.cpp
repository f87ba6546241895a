// D03: the supporting containers and number types of the decision-diagram library.
// usage: support st|epd|apa|count|mtr seed histories
#include <boost/multiprecision/cpp_int.hpp>
#include <bitset>
#include <unistd.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <random>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <functional>
extern "C" {
#include "util.h"
#include "st.h"
#include "epdInt.h"
#include "mtrInt.h"
#include "config.h"
#include "cuddInt.h"
}
#undef fail
using namespace std; typedef boost::multiprecision::cpp_int Big;
static map<string,long> CNT; static int NVIOL=0; static string CTX;
static void cnt(const string&k,long v=1){ CNT[k]+=v; }
static string S(const char*f,...){ char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static void viol(const string&sig,const string&msg){ if(NVIOL++<3){ printf("\n@VIOL %s|%s (%s)\n",sig.c_str(),msg.c_str(),CTX.c_str()); fflush(stdout);} }
struct Rng { mt19937_64 g; Rng(uint64_t s):g(s){} int operator()(int n){ return n<=0?0:(int)(g()%n); } bool p(double x){ return (g()>>11)*0x1p-53<x; } };
static string grab(function<int(FILE*)> f,int*rc=nullptr){ char*b=0; size_t n=0; FILE*fp=open_memstream(&b,&n); int r=f(fp); fclose(fp); string s(b,n); free(b); if(rc) *rc=r; return s; }

// ---------------------------------------------------------------- hash tables
// keys: small integers, pointers into a block, or strings that are equal but stored at different places
struct StKeys { int mode; vector<string> pool; vector<char*> own; vector<long long> block;
  StKeys(int m,Rng&R):mode(m),block(400){ for(int i=0;i<200;i++){ string s; int l=R(6); for(int j=0;j<l;j++) s+=(char)('a'+R(3)); pool.push_back(s);} }
  ~StKeys(){ for(char*p:own) free(p); }
  void* key(int k,Rng&R){ if(mode==0) return (void*)(intptr_t)(k-100); if(mode==1) return &block[k]; if(mode==2){ char*p=strdup(pool[k%200].c_str()); own.push_back(p); return p; } return (void*)(intptr_t)(k-100); }
  string id(void*k){ if(mode==1) return S("%d",(int)((long long*)k-&block[0])); if(mode==2) return string("s")+(char*)k; return S("%d",(int)(intptr_t)k); } };
static int argCmp(void const*a,void const*b,void const*arg){ int m=*(int const*)arg; return ((intptr_t)a%m+m)%m!=((intptr_t)b%m+m)%m; }
static int argHash(void const*k,int n,void const*arg){ int m=*(int const*)arg; return (int)((((intptr_t)k%m+m)%m)%n); }
struct FE { StKeys*K; set<string> seen; map<string,intptr_t>*M; map<string,intptr_t> gone; Rng*R; int stop; bool bad; function<string(void*)> id; };
static enum st_retval feach(void*k,void*v,void*a){ FE&f=*(FE*)a; string id=f.id(k); auto it=f.M->find(id);
  if(it==f.M->end()||f.gone.count(id)||!f.seen.insert(id).second||it->second!=(intptr_t)v) f.bad=true;
  if(f.stop>=0&&(int)f.seen.size()>f.stop) return ST_STOP; if(f.stop==-2&&f.R->p(.4)){ f.gone[id]=1; return ST_DELETE; } return ST_CONTINUE; }
static void doSt(Rng&R){
  int mode=R(4); StKeys K(mode,R); int modulus=R(40)+3; st_table*T; st_compare_t cf[]={st_numcmp,st_ptrcmp,(st_compare_t)strcmp}; st_hash_t hf[]={st_numhash,st_ptrhash,st_strhash};
  int range=R.p(.5)?R(30)+1:R(390)+1; bool params=R.p(.6); int size=R(20)+1, dens=R(6)+1, reorder=R(2); double grow=1.2+R(30)/10.0;
  if(mode==3) T=params?st_init_table_with_params_and_arg(argCmp,argHash,&modulus,size,dens,grow,reorder):st_init_table_with_arg(argCmp,argHash,&modulus);
  else T=params?st_init_table_with_params(cf[mode],hf[mode],size,dens,grow,reorder):st_init_table(cf[mode],hf[mode]);
  CTX+=S(" st mode=%d range=%d params=%d size=%d density=%d grow=%g move-to-front=%d",mode,range,params,size,dens,grow,reorder);
  auto id=[&](void*k){ return mode==3?S("%d",(int)((((intptr_t)k%modulus)+modulus)%modulus)):K.id(k); };
  map<string,intptr_t> M; vector<pair<st_table*,map<string,intptr_t>>> copies; cnt("st_mode_"+to_string(mode));
  int ops=R(400)+20;
  for(int o=0;o<ops&&NVIOL<3;o++){ cnt("operations"); void*k=K.key(R(range),R); string i=id(k); intptr_t v=R.p(.8)?R(1000)-500:(intptr_t)R.g(); auto it=M.find(i); bool has=it!=M.end(); int op=R(14);
    auto exp=[&](const char*what,long got,long want){ cnt("comparisons"); if(got!=want) viol(string("st-")+what,S("%s on key %s returned %ld instead of %ld (%zu entries)",what,i.c_str(),got,want,M.size())); };
    if(op<=2){ exp("st_insert",st_insert(T,k,(void*)v),has); M[i]=v; }
    else if(op==3){ if(!has){ exp("st_add_direct",st_add_direct(T,k,(void*)v),1); M[i]=v; } }
    else if(op==4){ void*r=(void*)77; int q=st_lookup(T,k,R.p(.9)?&r:nullptr); exp("st_lookup",q,has); if(has&&r!=(void*)77) exp("st_lookup value",(long)(intptr_t)r,it->second); }
    else if(op==5){ int r=77; exp("st_lookup_int",st_lookup_int(T,k,&r),has); exp("st_lookup_int value",r,has?(int)it->second:77); }
    else if(op==6){ void**s=nullptr; int q=st_find(T,k,&s); exp("st_find",q,has); if(has&&q){ exp("st_find value",(long)(intptr_t)*s,it->second); if(R.p(.5)){ *s=(void*)v; M[i]=v; } } }
    else if(op==7){ void**s=nullptr; int q=st_find_or_add(T,k,&s); exp("st_find_or_add",q,has); if(has) exp("st_find_or_add value",(long)(intptr_t)*s,it->second); *s=(void*)v; M[i]=v; }
    else if(op==8||op==9){ void*kk=k; void*r=(void*)77; int q=st_delete(T,&kk,&r); exp("st_delete",q,has); if(has&&q){ exp("st_delete value",(long)(intptr_t)r,it->second); if(id(kk)!=i) viol("st-delete-key","the key given back by st_delete is another one"); } if(has) M.erase(i); }
    else if(op==10){ void*kk=k; int r=77; int q=st_delete_int(T,&kk,&r); exp("st_delete_int",q,has); if(has&&q) exp("st_delete_int value",r,(int)it->second); if(has) M.erase(i); }
    else if(op==11){ // generator: every entry exactly once, also with early end
      st_generator*g=st_init_gen(T); set<string> seen; void*gk; void*gv; int gi; bool asInt=R.p(.3); int lim=R.p(.2)?R(5):1<<30; cnt("generators");
      while((int)seen.size()<lim){ int q=asInt?st_gen_int(g,&gk,&gi):st_gen(g,&gk,&gv); if(!q) break; string d=id(gk); auto f=M.find(d); cnt("generated");
        if(f==M.end()||!seen.insert(d).second) viol("st-gen","the generator gave an absent or repeated key "+d); else if(asInt?gi!=(int)f->second:(intptr_t)gv!=f->second) viol("st-gen","the generator gave a wrong value for "+d); if(NVIOL>2) break; }
      st_free_gen(g); if(lim==1<<30) exp("number of generated entries",seen.size(),M.size()); }
    else if(op==12){ FE f; f.K=&K; f.M=&M; f.R=&R; f.bad=false; f.id=id; int w=R(3); f.stop=w==0?-1:w==1?R(6):-2; cnt("foreach");
      int q=st_foreach(T,feach,&f); bool stopped=f.stop>=0&&(int)M.size()>f.stop; exp("st_foreach",q,!stopped); if(f.bad) viol("st-foreach","st_foreach visited an absent, repeated or wrongly valued entry"); if(!stopped) exp("entries visited",f.seen.size(),M.size());
      cnt("deleted_in_foreach",f.gone.size()); for(auto&x:f.gone) M.erase(x.first); }
    else if(op==13&&R.p(.2)&&copies.size()<3){ copies.push_back({st_copy(T),M}); cnt("copies"); if(R.p(.5)) swap(T,copies.back().first); }
    exp("st_count",st_count(T),M.size()); if(st_count(T)) cnt("st_entries_max",0); }
  copies.push_back({T,M});
  for(auto&c:copies){ cnt("comparisons"); if(st_count(c.first)!=(int)c.second.size()) viol("st-copy",S("a copied table has %d entries instead of %zu",st_count(c.first),c.second.size()));
    st_generator*g=st_init_gen(c.first); void*gk; void*gv; size_t n=0; while(st_gen(g,&gk,&gv)){ n++; auto f=c.second.find(id(gk)); if(f==c.second.end()||f->second!=(intptr_t)gv){ viol("st-copy","a table holds a wrong entry at the end"); break; } } st_free_gen(g); if(n!=c.second.size()) viol("st-copy","a table does not hold all its entries at the end"); st_free_table(c.first); }
}
// ---------------------------------------------------------------- extended-precision numbers
static long double val(EpDouble const&e){ return ldexpl((long double)e.type.value,e.exponent); }
static string ep(EpDouble const&e){ return S("%La",val(e)); }
static void doEpd(Rng&R){ CTX+=" epd";
  auto rnd=[&](EpDouble&e){ double m=(1+R(1<<20)/1048576.0*0.999)*(R.p(.25)?-1:1); if(R.p(.2)) m=R(20)+1; int x=R.p(.5)?R(80)-40:R(4000)-900; EpdConvert(m,&e); e.exponent+=x; };
  auto dbl=[&](){ double m=(R(1<<20)+1)/(double)(R(1000)+1)*(R.p(.3)?-1:1); return R.p(.1)?ldexp(m,R(600)-300):m; };
  auto close=[&](const char*what,EpDouble const&r,long double want,long double scale,const string&args){ cnt("comparisons"); cnt(string("epd_")+what); long double g=val(r);
    if(!(fabsl(g-want)<=scale*0x1p-49L)) viol(string("epd-")+what,S("%s gives %La instead of %La for %s",what,g,want,args.c_str()));
    else if(want!=0&&fabsl(g)>scale*0x1p-900L&&r.type.bits.exponent!=EPD_MAX_BIN) viol("epd-normal",S("the result of %s is not normalised for %s",what,args.c_str())); };
  for(int o=0;o<300&&NVIOL<3;o++){ cnt("operations"); EpDouble a,b,c,a0; rnd(a); rnd(b); if(R.p(.3)) b.exponent=a.exponent+R(140)-70; if(R.p(.05)){ b=a; if(R.p(.5)) b.type.bits.sign^=1; } bool zer=R.p(.06); if(zer){ if(R.p(.5)) EpdMakeZero(&a,R(2)); else EpdConvert(0,&a); if(R.p(.2)) b=a; cnt("zero_operands"); } else if(R.p(.03)) EpdMakeZero(&b,0); double d=R.p(.05)?0.0:dbl(); a0=a; long double A=val(a),B=val(b),D=d; string ar=ep(a)+","+ep(b)+","+S("%a",d);
    long double mab=max(fabsl(A),fabsl(B)), mad=max(fabsl(A),fabsl(D));
    switch(R(20)){
      case 0: EpdMultiply(&a,d); close("EpdMultiply",a,A*D,fabsl(A*D),ar); break;
      case 1: EpdMultiply2(&a,&b); close("EpdMultiply2",a,A*B,fabsl(A*B),ar); break;
      case 2: EpdMultiply3(&a,&b,&c); close("EpdMultiply3",c,A*B,fabsl(A*B),ar); break;
      case 3: EpdDivide(&a,d); if(d==0){ cnt("divisions_by_zero"); if(!EpdIsNan(&a)) viol("epd-divide","division by zero is not undefined"); break; } close("EpdDivide",a,A/D,fabsl(A/D),ar); break;
      case 4: EpdDivide2(&a,&b); if(B==0){ cnt("divisions_by_zero"); if(!EpdIsNan(&a)) viol("epd-divide","division by zero is not undefined"); break; } close("EpdDivide2",a,A/B,fabsl(A/B),ar); break;
      case 5: EpdDivide3(&a,&b,&c); if(B==0){ cnt("divisions_by_zero"); if(!EpdIsNan(&c)) viol("epd-divide","division by zero is not undefined"); break; } close("EpdDivide3",c,A/B,fabsl(A/B),ar); break;
      case 6: EpdAdd(&a,d); close("EpdAdd",a,A+D,mad,ar); break;
      case 7: EpdAdd2(&a,&b); close("EpdAdd2",a,A+B,mab,ar); break;
      case 8: EpdAdd3(&a,&b,&c); close("EpdAdd3",c,A+B,mab,ar); break;
      case 9: EpdSubtract(&a,d); close("EpdSubtract",a,A-D,mad,ar); break;
      case 10: EpdSubtract2(&a,&b); close("EpdSubtract2",a,A-B,mab,ar); break;
      case 11: EpdSubtract3(&a,&b,&c); close("EpdSubtract3",c,A-B,mab,ar); break;
      case 12: { int n=R(9000); EpdPow2(n,&c); close("EpdPow2",c,ldexpl(1,n),ldexpl(1,n),to_string(n)); break; }
      case 13: { int n=R(9000); EpdPow2Decimal(n,&c); long double g=(long double)c.type.value*powl(10,c.exponent); cnt("comparisons"); if(!(fabsl(g/ldexpl(1,n)-1)<1e-12L)||fabs(c.type.value)>=10.0000001||fabs(c.type.value)<0.99999999) viol("epd-EpdPow2Decimal",S("2^%d becomes %ae%d",n,c.type.value,c.exponent)); break; }
      case 14: case 15: { double v; if(A==0){ char str[64]; EpdGetString(&a,str); cnt("comparisons"); if(strtod(str,nullptr)!=0) viol("epd-string",string("zero is written as ")+str); break; } int x_;   int x; EpdGetValueAndDecimalExponent(&a,&v,&x); long double g=(long double)v*powl(10,x); cnt("comparisons"); if(!(fabsl(g/A-1)<1e-11L)||fabs(v)>=10.0000001||fabs(v)<0.99999999) viol("epd-decimal",S("%s becomes %.17ge%d",ep(a).c_str(),v,x));
        char str[64]; EpdGetString(&a,str); long double t=strtold(str,nullptr); cnt("comparisons"); if(!(fabsl(t/A-1)<1e-6L)) viol("epd-string",S("%s is written as %s",ep(a).c_str(),str)); break; }
      case 16: { EpdConvert(d,&c); close("EpdConvert",c,D,fabsl(D),ar); EpdCopy(&c,&b); if(val(b)!=val(c)||EpdCmp(&b,&c)) viol("epd-copy","EpdCopy or EpdCmp"); if(d==0){ if(!EpdIsZero(&c)) viol("epd-class","zero is not called zero"); break; } if(val(a)!=val(c)&&!EpdCmp(&a,&c)) viol("epd-cmp","EpdCmp calls two different numbers equal"); if(EpdIsInf(&c)||EpdIsNan(&c)||EpdIsZero(&c)||EpdIsNanOrInf(&c)) viol("epd-class","a finite number is called infinite, undefined or zero"); break; }
      case 17: { // infinity and undefined values propagate with their signs
        int s=R(2),t=R(2); EpDouble inf,nan,z,fin; EpdMakeInf(&inf,s); EpdMakeNan(&nan); EpdMakeZero(&z,t); rnd(fin); bool fneg=fin.type.bits.sign; cnt("special_values");
        auto isInf=[&](EpDouble const&e,int sg){ return EpdIsInf(&e)&&!EpdIsNan(&e)&&(int)e.type.bits.sign==sg; };
        EpDouble r; bool ok=EpdIsInf(&inf)&&!EpdIsNan(&inf)&&EpdIsNan(&nan)&&!EpdIsInf(&nan)&&EpdIsZero(&z)&&!EpdIsZero(&inf)&&EpdIsNanOrInf(&inf)&&EpdIsNanOrInf(&nan)&&!EpdIsNanOrInf(&z);
        EpdMultiply3(&inf,&fin,&r); ok&=isInf(r,s^fneg); EpdMultiply3(&fin,&inf,&r); ok&=isInf(r,s^fneg); EpdAdd3(&inf,&fin,&r); ok&=isInf(r,s); EpdAdd3(&fin,&inf,&r); ok&=isInf(r,s); EpdSubtract3(&inf,&fin,&r); ok&=isInf(r,s); EpdSubtract3(&fin,&inf,&r); ok&=isInf(r,!s);
        EpdDivide3(&inf,&fin,&r); ok&=isInf(r,s^fneg); EpdDivide3(&fin,&inf,&r); ok&=EpdIsZero(&r); EpdDivide3(&inf,&inf,&r); ok&=EpdIsNan(&r);
        EpDouble inf2; EpdMakeInf(&inf2,t); EpdAdd3(&inf,&inf2,&r); ok&=(s==t?isInf(r,s):(bool)EpdIsNan(&r));
        EpdAdd3(&nan,&fin,&r); ok&=EpdIsNan(&r); EpdMultiply3(&fin,&nan,&r); ok&=EpdIsNan(&r); EpdSubtract3(&fin,&nan,&r); ok&=EpdIsNan(&r); EpdDivide3(&nan,&fin,&r); ok&=EpdIsNan(&r);
        char str[64]; EpdGetString(&inf,str); ok&=!strcmp(str,s?"-inf":"inf"); EpdGetString(&nan,str); ok&=!strcmp(str,"NaN"); cnt("comparisons"); if(!ok) viol("epd-special",S("arithmetic with infinite or undefined values (signs %d %d, finite %s)",s,t,ep(fin).c_str())); break; }
      case 18: { EpDouble x=a,y=b; EpdAdd2(&x,&y); EpdSubtract2(&x,&y); close("add-then-subtract",x,A,max(mab,fabsl(A+B))*4,ar); break; }
      case 19: { if(B==0) break; EpdMultiply3(&a,&b,&c); EpdDivide2(&c,&b); close("multiply-then-divide",c,A,fabsl(A)*2,ar); break; } }
    if(val(b)!=B&&!R.p(0)){ } }
}
// ---------------------------------------------------------------- arbitrary-precision integers
struct Apa { vector<DdApaDigit> d; Apa(int n):d(n){} Apa(int n,Big v):d(n){ for(int i=n-1;i>=0;i--){ d[i]=(DdApaDigit)(v&0xffffffffu); v>>=32; } } Big big()const{ Big v=0; for(auto x:d) v=(v<<32)|x; return v; } };
static Big rndBig(Rng&R,int digits){ Big v=0; int m=R(4); for(int i=0;i<digits;i++){ uint32_t x=m==0?(uint32_t)R.g():m==1?(R.p(.5)?0xffffffffu:0):m==2?(R.p(.7)?0:(uint32_t)R.g()):(R.p(.3)?0x80000000u:(uint32_t)R(3)); v=(v<<32)|x; } if(R.p(.2)) v>>=R(32*digits); return v; }
static string expo(Big v,int prec){ // the documented output: all digits if they fit, else rounded to nearest, ties to even, exponent form without trailing zeros
  string s=v.str(); int n=s.size(); if(n<=prec) return s; Big p=1; for(int i=0;i<n-prec;i++) p*=10; Big q=v/p,r=v%p; if(r*2>p||(r*2==p&&(q&1))) q+=1; string t=q.str(); int e=n-1; if((int)t.size()>prec){ e++; } while(t.size()>1&&t.back()=='0') t.pop_back(); string o(1,t[0]); if(t.size()>1) o+="."+t.substr(1); return o+S("e+%02d",e); }
static void doApa(Rng&R){ CTX+=" apa";
  for(int o=0;o<200&&NVIOL<3;o++){ cnt("operations"); int n=R(8)+1; Big base=Big(1)<<(32*n), a=rndBig(R,n), b=rndBig(R,n); if(R.p(.1)) b=a; Apa x(n,a),y(n,b),z(n); string ar=a.str()+","+b.str();
    auto eq=[&](const char*what,Big got,Big want){ cnt("comparisons"); cnt(string("apa_")+what); if(got!=want) viol(string("apa-")+what,S("%s gives %s instead of %s for %s",what,got.str().c_str(),want.str().c_str(),ar.substr(0,300).c_str())); };
    auto eqs=[&](const char*what,string got,string want){ cnt("comparisons"); cnt(string("apa_")+what); if(got!=want) viol(string("apa-")+what,S("%s gives '%s' instead of '%s' for %s",what,got.c_str(),want.c_str(),ar.substr(0,300).c_str())); };
    switch(R(11)){
      case 0: { int al=R(3); DdApaDigit c=Cudd_ApaAdd(n,&x.d[0],&y.d[0],al==0?&z.d[0]:al==1?&x.d[0]:&y.d[0]); Big s=al==0?z.big():al==1?x.big():y.big(); eq("ApaAdd",s,(a+b)%base); eq("ApaAdd carry",c,(a+b)/base); break; }
      case 1: { DdApaDigit c=Cudd_ApaSubtract(n,&x.d[0],&y.d[0],&z.d[0]); eq("ApaSubtract",z.big(),(a-b+base)%base); eq("ApaSubtract borrow",c,a<b?0xffffffffu:0); break; }
      case 2: { DdApaDigit v=R.p(.5)?R(100)+1:(DdApaDigit)R.g()|1; DdApaDigit r=Cudd_ApaShortDivision(n,&x.d[0],v,R.p(.5)?&z.d[0]:(z=x,&z.d[0])); ar+="/"+to_string(v); eq("ApaShortDivision",z.big(),a/v); eq("ApaShortDivision remainder",r,a%v); break; }
      case 3: { unsigned v=R(1<<20)+1; unsigned r=Cudd_ApaIntDivision(n,&x.d[0],v,&z.d[0]); ar+="/"+to_string(v); eq("ApaIntDivision",z.big(),a/v); eq("ApaIntDivision remainder",r,a%v); break; }
      case 4: { DdApaDigit in=R(2); Cudd_ApaShiftRight(n,in,&x.d[0],R.p(.5)?&z.d[0]:(z=x,&z.d[0])); eq("ApaShiftRight",z.big(),(a+(in?base:Big(0)))>>1); break; }
      case 5: { DdApaDigit l=(DdApaDigit)R.g(); Cudd_ApaSetToLiteral(n,&z.d[0],l); eq("ApaSetToLiteral",z.big(),l); int p=R(32*n+40); Cudd_ApaPowerOfTwo(n,&z.d[0],p); ar=to_string(p); eq("ApaPowerOfTwo",z.big(),p<32*n?Big(1)<<p:Big(0)); break; }
      case 6: { int m=R(8)+1; Big c=R.p(.3)&&a<(Big(1)<<(32*m))?a:rndBig(R,m); Apa w(m,c); ar+=","+c.str(); eq("ApaCompare",Cudd_ApaCompare(n,&x.d[0],m,&w.d[0]),a<c?-1:a>c?1:0); unsigned d1=R(1<<18)+1,d2=R.p(.3)?d1:R(1<<18)+1; if(R.p(.3)){ d1=R(9)+1; d2=R(9)+1; Big q=rndBig(R,1)&0xffffff; Apa f(n,q*d1),g(m,q*d2); eq("ApaCompareRatios equal",Cudd_ApaCompareRatios(n,&f.d[0],d1,m,&g.d[0],d2),0); } ar+=S("/%u,%u",d1,d2); eq("ApaCompareRatios",Cudd_ApaCompareRatios(n,&x.d[0],d1,m,&w.d[0],d2),a*d2<c*d1?-1:a*d2>c*d1?1:0); break; }
      case 7: { string h=grab([&](FILE*f){ return Cudd_ApaPrintHex(f,n,&x.d[0]); }); string w; for(auto v:x.d) w+=S("%08x",v); eqs("ApaPrintHex",h,w); break; }
      case 8: { eqs("ApaPrintDecimal",grab([&](FILE*f){ return Cudd_ApaPrintDecimal(f,n,&x.d[0]); }),a.str()); char*s=Cudd_ApaStringDecimal(n,&x.d[0]); eqs("ApaStringDecimal",s,a.str()); FREE(s); break; }
      case 9: { Big v=a; if(R.p(.4)){ v=1; int k=R(9*n); for(int i=0;i<k;i++) v*=10; if(R.p(.5)) v-=R(20)+1; else v+=R(3); if(v<0) v=9; if(v>=base) v=a; } Apa w(n,v); int p=R(20)+1; ar=v.str()+S(" precision %d",p); eqs("ApaPrintExponential",grab([&](FILE*f){ return Cudd_ApaPrintExponential(f,n,&w.d[0],p); }),expo(v,p)); break; }
      case 10: { int bits=R(500)+1; eq("ApaNumberOfDigits",Cudd_ApaNumberOfDigits(bits),(bits+31)/32); DdApaNumber q=Cudd_NewApaNumber(n); Cudd_ApaCopy(n,&x.d[0],q); for(int i=0;i<n;i++) if(q[i]!=x.d[i]) viol("apa-copy","Cudd_ApaCopy"); Cudd_FreeApaNumber(q); break; } } }
}
// ---------------------------------------------------------------- counting minterms over many variables
static void doCount(Rng&R){ CTX+=" count"; const int K=7;
  DdManager*dd=Cudd_Init(K,0,64,512,0); vector<DdNode*> pool; vector<bitset<128>> tt; bitset<128> all; all.set(); bitset<128> V[K]; for(int m=0;m<128;m++) for(int i=0;i<K;i++) if(m>>i&1) V[i].set(m);
  for(int i=0;i<K;i++){ DdNode*f=Cudd_bddIthVar(dd,i); Cudd_Ref(f); pool.push_back(f); tt.push_back(V[i]); }
  for(int o=0;o<25&&NVIOL<3;o++){ int i=R(pool.size()),j=R(pool.size()); DdNode*f; bitset<128> t; bool ng=R.p(.4); switch(R(3)){ case 0: f=Cudd_bddAnd(dd,pool[i],Cudd_NotCond(pool[j],ng)); t=tt[i]&(ng?~tt[j]:tt[j]); break; case 1: f=Cudd_bddOr(dd,pool[i],Cudd_NotCond(pool[j],ng)); t=tt[i]|(ng?~tt[j]:tt[j]); break; default: f=Cudd_bddXor(dd,pool[i],pool[j]); t=tt[i]^tt[j]; } Cudd_Ref(f); if(R.p(.3)){ f=Cudd_Not(f); t=~t; } pool.push_back(f); tt.push_back(t);
    if(R.p(.4)) Cudd_ReduceHeap(dd,CUDD_REORDER_RANDOM,0);
    int n=R.p(.3)?K+R(20):R.p(.5)?K+R(1000):K+R(6000); Big c=Big(t.count())<<(n-K); string ar=S("%zu*2^%d",t.count(),n-K); cnt("operations"); bool add=R.p(.3); DdNode*g=f; if(add){ g=Cudd_BddToAdd(dd,f); Cudd_Ref(g); cnt("arithmetic_diagrams"); }
    if(t.any()&&!t.all()) cnt("non_constant_functions");
    int digits; DdApaNumber a=Cudd_ApaCountMinterm(dd,g,n,&digits); Big got=0; for(int q=0;q<digits;q++) got=(got<<32)|a[q]; FREE(a); cnt("comparisons"); if(got!=c) viol("count-apa",S("Cudd_ApaCountMinterm over %d variables is wrong for %s",n,ar.c_str()));
    auto eqs=[&](const char*what,string x,string y){ cnt("comparisons"); cnt(string("count_")+what); if(x!=y) viol(string("count-")+what,S("%s prints '%s' instead of '%s' (%d variables, %s)",what,x.substr(0,200).c_str(),y.substr(0,200).c_str(),n,ar.c_str())); };
    int prec=R(12)+1; eqs("Cudd_ApaPrintMinterm",grab([&](FILE*fp){ return Cudd_ApaPrintMinterm(fp,dd,g,n); }),c.str()+"\n"); eqs("Cudd_ApaPrintMintermExp",grab([&](FILE*fp){ return Cudd_ApaPrintMintermExp(fp,dd,g,n,prec); }),expo(c,prec)+"\n");
    unsigned sz=Cudd_DagSize(g); Big whole=c/sz; unsigned rem=(unsigned)(c%sz); string dens=grab([&](FILE*fp){ return Cudd_ApaPrintDensity(fp,dd,g,n); }); cnt("comparisons"); { string w=whole.str()+S(".%06u",(unsigned)((double)rem/sz*1000000))+"\n"; eqs("Cudd_ApaPrintDensity",dens,w); }
    long double L=ldexpl((long double)t.count(),n-K); auto near=[&](const char*what,long double x,long double y,long double tol){ cnt("comparisons"); cnt(string("count_")+what); if(y==0?x!=0:!(fabsl(x/y-1)<=tol)) viol(string("count-")+what,S("%s gives %Lg instead of %Lg (%d variables)",what,x,y,n)); };
    near("Cudd_LdblCountMinterm",Cudd_LdblCountMinterm(dd,g,n),L,1e-15L); EpDouble e; Cudd_EpdCountMinterm(dd,g,n,&e); near("Cudd_EpdCountMinterm",val(e),L,1e-12L);
    if(n<1000) near("Cudd_CountMinterm",Cudd_CountMinterm(dd,g,n),L,1e-10L);
    { int rc; string p=grab([&](FILE*fp){ FILE*o=Cudd_ReadStdout(dd); Cudd_SetStdout(dd,fp); int q=Cudd_EpdPrintMinterm(dd,g,n); Cudd_SetStdout(dd,o); return q; },&rc); if(rc!=1) viol("count-Cudd_EpdPrintMinterm","Cudd_EpdPrintMinterm fails"); near("Cudd_EpdPrintMinterm",strtold(p.c_str(),nullptr),L,1e-6L); }
    if(add) Cudd_RecursiveDeref(dd,g); }
  for(auto f:pool) Cudd_RecursiveDeref(dd,f); int left=Cudd_CheckZeroRef(dd); if(left) viol("count-leak",S("%d nodes keep references after counting",left)); Cudd_Quit(dd); cnt("managers_closed");
}
// ---------------------------------------------------------------- group trees
struct G { int low,size; unsigned flags; int idx; vector<G> ch; };
static string show(G const&g){ string s=S("[%d+%d/%u",g.low,g.size,g.flags); for(auto&c:g.ch) s+=show(c); return s+"]"; }
static string show(MtrNode*t,MtrNode*par,bool&ok){ if(t->parent!=par) ok=false; string s=S("[%d+%d/%u",(int)t->low,(int)t->size,(unsigned)t->flags); MtrNode*prev=nullptr; int n=0; for(MtrNode*c=t->child;c&&n++<1000;c=c->younger){ if(c->elder!=prev) ok=false; prev=c; s+=show(c,t,ok); } return s+"]"; }
// the reference: a family of intervals ordered by inclusion
static bool crosses(int a,int b,int c,int d){ return max(a,c)<min(b,d)&&!(a<=c&&d<=b)&&!(c<=a&&b<=d); }
static bool anyCross(G const&g,int l,int s){ if(crosses(g.low,g.low+g.size,l,l+s)) return true; for(auto&c:g.ch) if(anyCross(c,l,s)) return true; return false; }
static void insertG(G&g,int l,int s,unsigned f){ for(auto&c:g.ch) if(c.low<=l&&l+s<=c.low+c.size){ insertG(c,l,s,f); return; } G n{l,s,f,l,{}}; vector<G> rest; for(auto&c:g.ch) if(l<=c.low&&c.low+c.size<=l+s) n.ch.push_back(c); else rest.push_back(c); rest.push_back(n); sort(rest.begin(),rest.end(),[](G const&a,G const&b){ return a.low<b.low; }); g.ch=rest; }
static void shift(G&g,int d){ g.low+=d; for(auto&c:g.ch) shift(c,d); }
static void paths(G&g,vector<G*>&o){ o.push_back(&g); for(auto&c:g.ch) paths(c,o); }
static MtrNode* at(MtrNode*t,G&r,G*want){ if(&r==want) return t; MtrNode*c=t->child; for(auto&x:r.ch){ MtrNode*q=at(c,x,want); if(q) return q; c=c->younger; } return nullptr; }
static string printed(G const&g,bool root){ string s=S("(%d",g.low); if(g.ch.empty()) s+=","; for(auto&c:g.ch) s+=printed(c,false); s+=to_string(g.low+g.size-1); if(g.flags){ s+="|"; if(g.flags&MTR_FIXED) s+="F"; if(g.flags&MTR_NEWNODE) s+="N"; if(g.flags&MTR_SOFT) s+="S"; } s+=")"; return root?s+"\n":s; }
static string order(G const&g,vector<int> const&inv,bool root){ vector<string> parts; int l=g.low; for(auto&c:g.ch){ for(;l<c.low;l++) parts.push_back(to_string(inv[l])); parts.push_back(order(c,inv,false)); l+=c.size; } for(;l<g.low+g.size;l++) parts.push_back(to_string(inv[l])); string s="("; for(size_t i=0;i<parts.size();i++) s+=(i?",":"")+parts[i]; if(g.flags){ s+="|"; if(g.flags&MTR_FIXED) s+="F"; if(g.flags&MTR_NEWNODE) s+="N"; if(g.flags&MTR_SOFT) s+="S"; } s+=")"; return root?s+"\n":s; }
static void reorderG(G&g,vector<int> const&perm){ g.low=perm[g.idx]; for(auto&c:g.ch) reorderG(c,perm); sort(g.ch.begin(),g.ch.end(),[](G const&a,G const&b){ return a.low<b.low; }); }
static void setIdx(MtrNode*t){ t->index=t->low; for(MtrNode*c=t->child;c;c=c->younger) setIdx(c); }
static void setIdx(G&g){ g.idx=g.low; for(auto&c:g.ch) setIdx(c); }
static void permTree(G const&g,vector<int>&lev,int&next,Rng&R){ vector<pair<int,int>> items; /*child index or leaf*/ int l=g.low; for(size_t i=0;i<g.ch.size();i++){ for(;l<g.ch[i].low;l++) items.push_back({-1,l}); items.push_back({(int)i,0}); l+=g.ch[i].size; } for(;l<g.low+g.size;l++) items.push_back({-1,l}); shuffle(items.begin(),items.end(),R.g); for(auto&x:items) if(x.first<0) lev[x.second]=next++; else { int b=next; permTree(g.ch[x.first],lev,next,R); (void)b; } }
static void doMtr(Rng&R){ int n=R(12)+2; CTX+=S(" mtr leaves=%d",n); MtrNode*T=Mtr_InitGroupTree(0,n); G g{0,n,0,0,{}};
  auto same=[&](const char*what){ bool ok=true; cnt("comparisons"); string a=show(T,nullptr,ok),b=show(g); if(a!=b) viol(string("mtr-")+what,S("after %s the tree is %s instead of %s",what,a.c_str(),b.c_str())); else if(!ok) viol(string("mtr-links-")+what,S("after %s the links of %s are inconsistent",what,a.c_str())); };
  for(int o=0;o<40&&NVIOL<2;o++){ cnt("operations"); int op=R(10), l=R(n), s=R(n-l)+1; if(R.p(.05)) s=n-l+R(4); 
    if(op<=3){ unsigned fl=(R.p(.3)?MTR_FIXED:0)|(R.p(.15)?MTR_SOFT:0)|(R.p(.1)?MTR_NEWNODE:0); bool fits=s>0&&l+s<=n&&!anyCross(g,l,s); vector<G*> ps; paths(g,ps); bool dup=false; for(auto p:ps) if(p->low==l&&p->size==s) dup=true;
      if(dup){ continue; } // a second group over the same leaves: what becomes of it is not claimed
      MtrNode*r=Mtr_MakeGroup(T,l,s,fl); cnt("comparisons"); if(!!r!=fits){ viol("mtr-make",S("Mtr_MakeGroup(%d,%d) %s on %s",l,s,r?"succeeds":"fails",show(g).c_str())); break; } if(fits){ cnt("groups_made"); if((int)r->low!=l||(int)r->size!=s||r->flags!=fl) viol("mtr-make","Mtr_MakeGroup returns another group"); insertG(g,l,s,fl); } else cnt("groups_refused"); same("Mtr_MakeGroup"); }
    else if(op<=5){ vector<G*> ps; paths(g,ps); bool has=false; for(auto p:ps) if(p->low==l&&p->size==s) has=true; MtrNode*r=Mtr_FindGroup(T,l,s); cnt("comparisons"); cnt(has?"groups_found":"groups_not_found"); if(!!r!=has||(r&&((int)r->low!=l||(int)r->size!=s))) viol("mtr-find",S("Mtr_FindGroup(%d,%d) on %s",l,s,show(g).c_str())); }
    else if(op==6){ vector<G*> ps; paths(g,ps); G*p=ps[R(ps.size())]; MtrNode*q=at(T,g,p); bool can=p!=&g&&!p->ch.empty(); MtrNode*par=q->parent; MtrNode*r=Mtr_DissolveGroup(q); cnt("comparisons"); if(r!=(can?par:nullptr)) viol("mtr-dissolve","Mtr_DissolveGroup returns something else"); if(can){ cnt("groups_dissolved"); function<bool(G&)> d=[&](G&x){ for(size_t i=0;i<x.ch.size();i++){ if(&x.ch[i]==p){ vector<G> in=p->ch; x.ch.erase(x.ch.begin()+i); x.ch.insert(x.ch.begin()+i,in.begin(),in.end()); return true; } if(d(x.ch[i])) return true; } return false; }; d(g); } same("Mtr_DissolveGroup"); }
    else if(op==7){ vector<G*> ps; paths(g,ps); G*p=ps[R(ps.size())]; if(p->ch.size()>=2){ int i=R(p->ch.size()),j=R(p->ch.size()); MtrNode*a=at(T,g,&p->ch[i]),*b=at(T,g,&p->ch[j]); bool adj=abs(i-j)==1; int x=min(i,j); if(!adj){ if(i!=j){ cnt("comparisons"); if(Mtr_SwapGroups(a,b)) viol("mtr-swap","groups that are not adjacent are swapped"); } }
          else if(p->ch[x].low+p->ch[x].size==p->ch[x+1].low){ int r=Mtr_SwapGroups(a,b); cnt("comparisons"); cnt("groups_swapped"); if(r!=1) viol("mtr-swap","Mtr_SwapGroups fails"); G first=p->ch[x],second=p->ch[x+1]; shift(first,second.size); shift(second,-first.size); p->ch[x]=second; p->ch[x+1]=first; } same("Mtr_SwapGroups"); } }
    else if(op==8){ vector<int> inv(n); for(int i=0;i<n;i++) inv[i]=i; shuffle(inv.begin(),inv.end(),R.g); int rc=0; string a=grab([&](FILE*f){ return Mtr_PrintGroupedOrder(T,&inv[0],f); },&rc),b=order(g,inv,true); cnt("comparisons"); cnt("orders_printed"); if(rc!=1||a!=b) viol("mtr-print-order",S("Mtr_PrintGroupedOrder prints %s instead of %s",a.c_str(),b.c_str()));
      MtrNode*c=Mtr_CopyTree(T,1); bool ok=true; string x=show(c,nullptr,ok),y=show(g); cnt("comparisons"); cnt("trees_copied"); if(x!=y||!ok) viol("mtr-copy",S("Mtr_CopyTree gives %s instead of %s",x.c_str(),y.c_str())); Mtr_FreeTree(c); int k=R(4)+2; c=Mtr_CopyTree(T,k); function<void(G&)> ex=[&](G&z){ z.low*=k; z.size*=k; for(auto&w:z.ch) ex(w); }; G e=g; ex(e); x=show(c,nullptr,ok); y=show(e); if(x!=y) viol("mtr-expand",S("Mtr_CopyTree expanded by %d gives %s instead of %s",k,x.c_str(),y.c_str())); Mtr_FreeTree(c); }
    else { // a permutation of the leaves which keeps every group together
      setIdx(T); setIdx(g); vector<int> lev(n); int next=0; permTree(g,lev,next,R); // lev: leaf -> new level; a group is identified by the leaf that is its lowest afterwards
      function<void(G&,MtrNode*)> fix=[&](G&x,MtrNode*t){ int best=x.low; for(int v=x.low;v<x.low+x.size;v++) if(lev[v]<lev[best]) best=v; t->index=best; MtrNode*c=t->child; for(auto&y:x.ch){ fix(y,c); c=c->younger; } x.idx=best; }; fix(g,T); Mtr_ReorderGroups(T,&lev[0]); reorderG(g,lev); cnt("trees_reordered"); same("Mtr_ReorderGroups"); } }
  // a written description is read back as the same tree
  if(NVIOL==0){ vector<G*> ps; paths(g,ps); string d; vector<G*> ord(ps.begin()+1,ps.end()); shuffle(ord.begin(),ord.end(),R.g); for(auto p:ord){ string f; if(p->flags&MTR_FIXED) f+="F"; if(p->flags&MTR_SOFT) f+="S"; if(p->flags&MTR_NEWNODE) f+="N"; if(f.empty()) f="D"; d+=S("%d %d %s%s",p->low,p->size,f.c_str(),R.p(.5)?"\n":" "); } int bad=R.p(.3)?R(4):-1; int bl=R(n),bs=R(n-bl)+1; if(bad==0) d+=S(" %d %d D\n",n-1,3); else if(bad==1) d+=" 0 x D\n"; else if(bad==2){ if(!anyCross(g,bl,bs)) bad=-1; else d+=S(" %d %d D\n",bl,bs); } else if(bad==3) d+=" 0 0 D\n";
    FILE*f=tmpfile(); fwrite(d.data(),1,d.size(),f); rewind(f); MtrNode*r=Mtr_ReadGroups(f,n); fclose(f); cnt("comparisons"); cnt(bad>=0?"descriptions_refused":"descriptions_read"); bool ok=true; if(bad>=0){ if(r) viol("mtr-read","Mtr_ReadGroups accepts a wrong description: "+d); } else if(!r) viol("mtr-read","Mtr_ReadGroups refuses "+d); else { string x=show(r,nullptr,ok),y=show(g); if(x!=y||!ok) viol("mtr-read",S("Mtr_ReadGroups gives %s instead of %s for %s",x.c_str(),y.c_str(),d.c_str())); } if(r) Mtr_FreeTree(r);
    fflush(stdout); int save=dup(1); FILE*tf=tmpfile(); dup2(fileno(tf),1); Mtr_PrintGroups(T,0); fflush(stdout); dup2(save,1); close(save); rewind(tf); char buf[4000]; size_t m=fread(buf,1,sizeof buf-1,tf); fclose(tf); string got(buf,m),want=printed(g,true); cnt("comparisons"); if(got!=want) viol("mtr-print",S("Mtr_PrintGroups prints %s instead of %s",got.c_str(),want.c_str())); }
  Mtr_FreeTree(T); }
int main(int c,char**v){ string mode=v[1]; uint64_t seed=strtoull(v[2],0,10); int hist=atoi(v[3]);
  for(int h=0;h<hist&&NVIOL<2;h++){ CTX=S("history %d of seed %llu",h,(unsigned long long)seed); Rng R(seed*1000+h);
    if(mode=="st") doSt(R); else if(mode=="epd") doEpd(R); else if(mode=="apa") doApa(R); else if(mode=="count") doCount(R); else doMtr(R); cnt("histories"); }
  for(auto&k:CNT){ string n=k.first; for(char&ch:n) if(ch==' '||ch=='-') ch='_'; printf("@CNT %s %ld\n",n.c_str(),k.second); } printf("@DONE\n"); fflush(stdout); return 0; }
