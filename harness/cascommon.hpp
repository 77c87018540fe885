// Common set-up: a CAS with a type system covering every range, several subtypes, and harness-chosen indexes.
#ifndef CASCOMMON_HPP
#define CASCOMMON_HPP
#include "symx.h"
#include <uima/api.hpp>
#include <uima/casdefinition.hpp>
#include <uima/internal_casimpl.hpp>
#include <uima/internal_fspromoter.hpp>
#include <uima/internal_typeshortcuts.hpp>
#include <uima/lowlevel_typesystem.hpp>
#include <uima/lowlevel_indexdefinition.hpp>
#include <uima/lowlevel_indexrepository.hpp>
#include <uima/lowlevel_fsheap.hpp>
#include <uima/lowlevel_indexcomparator.hpp>
#include <uima/fsfilterbuilder.hpp>
#include <uima/arrayfs.hpp>
#include <uima/listfs.hpp>
#include <uima/engine.hpp>
#include <uima/resmgr.hpp>
#include <vector>
#include <string>
#include <functional>
#include <memory>
using namespace uima;
namespace ll=uima::lowlevel;
typedef ll::IndexComparator IC;
typedef ll::IndexDefinition ID;
static icu::UnicodeString US(const char* s){ return icu::UnicodeString(s,(int32_t)strlen(s),""); }
struct HDef : public uima::internal::CASDefinition {
  std::function<void(HDef&)> ty,ix;
  HDef():uima::internal::CASDefinition(NULL){}
  ll::TypeSystem& ts(){ return *iv_typeSystem; }
  ll::TyFSType type(ll::TyFSType p,const char* n){ return iv_typeSystem->createType(p,US(n),US("h")); }
  ll::TyFSFeature feat(ll::TyFSType t,ll::TyFSType r,const char* n){ return iv_typeSystem->createFeature(t,r,false,US(n),US("h")); }
  void index(ID::EnIndexKind k,ll::TyFSType t,std::vector<ll::TyFSFeature> f,std::vector<bool> rev,const char* l){
    std::vector<IC::EnKeyFeatureComp> c; for(bool r:rev) c.push_back(r?IC::REVERSE_STANDARD_COMPARE:IC::STANDARD_COMPARE);
    iv_indexDefinition->defineIndex(k,t,f,c,US(l)); }
  virtual void createTypes(){ uima::internal::CASDefinition::createTypes(); if(ty) ty(*this); }
  virtual void createIndexes(){ uima::internal::CASDefinition::createIndexes(); if(ix) ix(*this); }
};
static ErrorInfo* g_err; static HDef* g_def; static CAS* g_cas;
static void hResMgr(){ static bool d=false; if(!d){ ResourceManager::createInstance("symx"); d=true; } }
static CAS* hCreate(HDef* d){ if(!g_err) g_err=new ErrorInfo(); CAS* c=Framework::createCAS(*d,*g_err); return c; }
// creates g_def and g_cas (the initial view)
static void hSetup(std::function<void(HDef&)> ty,std::function<void(HDef&)> ix){
  hResMgr(); g_def=new HDef(); g_def->ty=ty; g_def->ix=ix; g_def->init(); g_def->commit(); g_cas=hCreate(g_def); if(!g_cas) abort(); }
static Type hT(ll::TyFSType t){ return uima::internal::FSPromoter::promoteType(t,g_def->ts()); }
static Feature hF(ll::TyFSFeature f){ return uima::internal::FSPromoter::promoteFeature(f,g_def->ts()); }
static ll::TyFS hA(FeatureStructure const& f){ return uima::internal::FSPromoter::demoteFS(f); }
// names of inputs: no std::string, whose out-of-line members would read stale shadow
static const char* nm(const char* p,int i,const char* q=""){ static char buf[32][40]; static int k; char* b=buf[k=(k+1)&31]; int n=0; while(*p) b[n++]=*p++; while(*q) b[n++]=*q++; if(i>=100) b[n++]=(char)('0'+i/100); if(i>=10) b[n++]=(char)('0'+i/10%10); b[n++]=(char)('0'+i%10); b[n]=0; return b; }
#define NM(p,i) nm(p,i)
// does e throw a uima::Exception?
template<class F> static bool throwsUima(F f){ try { f(); return false; } catch(uima::Exception&){ return true; } }
static uint32_t fbits(float f){ uint32_t u; memcpy(&u,&f,4); return u; }
static uint64_t dbits(double f){ uint64_t u; memcpy(&u,&f,8); return u; }
static float ffrom(uint32_t u){ float f; memcpy(&f,&u,4); return f; }
static double dfrom(uint64_t u){ double f; memcpy(&f,&u,8); return f; }
// string equality over code units without branching on contents
static bool eqU(UnicodeStringRef r,const char16_t* p,int n){ if((int)r.length()!=n) return false; unsigned d=0; for(int i=0;i<n;++i) d|=(unsigned)(r.getBuffer()[i]^p[i]); return d==0; }
// the full type system used by several harnesses
namespace full {
static ll::TyFSType A,B,C,D,Color,X,Y,Z; static ll::TyFSFeature i,f,s,b,y,h,l,d,r,ra,rb,bi,ci,sub,ai,af,as,ab,ay,ah,al,ad,ar,xi;
static void types(HDef& D_){ using namespace uima::internal; ll::TypeSystem& ts=D_.ts();
  A=D_.type(ts.getTopType(),"T.A"); B=D_.type(A,"T.B"); C=D_.type(A,"T.C"); D=D_.type(B,"T.D");
  std::vector<icu::UnicodeString> v; v.push_back(US("ab")); v.push_back(US("c")); v.push_back(US("abd")); Color=ts.createStringSubtype(US("T.Color"),v,US("h"));
  X=D_.type(gs_tyAnnotationType,"T.X"); Y=D_.type(gs_tyAnnotationType,"T.Y"); Z=D_.type(X,"T.Z");
  i=D_.feat(A,gs_tyIntegerType,"i"); f=D_.feat(A,gs_tyFloatType,"f"); s=D_.feat(A,gs_tyStringType,"s"); b=D_.feat(A,gs_tyBooleanType,"b"); y=D_.feat(A,gs_tyByteType,"y"); h=D_.feat(A,gs_tyShortType,"h"); l=D_.feat(A,gs_tyLongType,"l"); d=D_.feat(A,gs_tyDoubleType,"d");
  r=D_.feat(A,ts.getTopType(),"r"); ra=D_.feat(A,A,"ra"); rb=D_.feat(A,B,"rb"); sub=D_.feat(A,Color,"sub");
  bi=D_.feat(B,gs_tyIntegerType,"bi"); ci=D_.feat(C,gs_tyIntegerType,"ci"); xi=D_.feat(X,gs_tyIntegerType,"xi");
  ai=D_.feat(A,gs_tyIntArrayType,"ai"); af=D_.feat(A,gs_tyFloatArrayType,"af"); as=D_.feat(A,gs_tyStringArrayType,"as"); ab=D_.feat(A,gs_tyBooleanArrayType,"ab"); ay=D_.feat(A,gs_tyByteArrayType,"ay"); ah=D_.feat(A,gs_tyShortArrayType,"ah"); al=D_.feat(A,gs_tyLongArrayType,"al"); ad=D_.feat(A,gs_tyDoubleArrayType,"ad"); ar=D_.feat(A,gs_tyFSArrayType,"ar");
}
}
#endif
