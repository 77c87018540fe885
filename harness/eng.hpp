// Analysis engines built from descriptions, with recording annotators. The dynamic loader is replaced: a library name "aK" yields annotator K.
#ifndef ENG_HPP
#define ENG_HPP
#include "cascommon.hpp"
#include <uima/annotator_context.hpp>
#include <uima/annotator_abase.hpp>
#include <uima/internal_aggregate_engine.hpp>
#include <uima/internal_primitive_engine.hpp>
#include <uima/taespecifier.hpp>
#include <uima/capability.hpp>
#include <uima/sofamapping.hpp>
#include <uima/result_specification.hpp>
#include <uima/caspool.hpp>
#include <apr_dso.h>
enum Ev { INIT=0,TS=1,PROC=2,RECONF=3,BATCH=4,COLL=5,DESTROY=6,NEXT=7,NEV=8 };
enum { NK=8 };
struct Rec { int ev,k; CAS* cas; unsigned mask; ll::TyFS sofa; };
static Rec g_log[256]; static int g_n; static unsigned g_rc[NEV][NK]; static bool g_throw[NEV][NK]; static int g_made[NK],g_deleted[NK]; static int g_need[NK],g_more[NK]; static int g_tofN; static TypeOrFeature* g_tof;
static unsigned maskOf(ResultSpecification const& rs){ unsigned m=0; for(int i=0;i<g_tofN;++i) m|=(unsigned)rs.contains(g_tof[i])<<i; if((int)rs.getSize()!=(int)((m&1)+(m>>1&1)+(m>>2&1))) m|=0x100; return m; }
struct Stub : public Annotator { int k; Stub(int k_):k(k_){ ++g_made[k]; } virtual ~Stub(){ ++g_deleted[k]; }
  TyErrorId ev(int e,CAS* c=0,ResultSpecification const* rs=0){ Rec r; r.ev=e; r.k=k; r.cas=c; r.mask=rs?maskOf(*rs):0; r.sofa=0; if(g_n<256) g_log[g_n++]=r; if(g_throw[e][k]){ UIMA_EXC_THROW_NEW(Uima_runtime_error,UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS,UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,ErrorInfo::recoverable); } return (TyErrorId)g_rc[e][k]; }
  virtual TyErrorId initialize(AnnotatorContext&){ return ev(INIT); } virtual TyErrorId typeSystemInit(uima::TypeSystem const&){ return ev(TS); } virtual TyErrorId destroy(){ return ev(DESTROY); }
  virtual TyErrorId process(CAS& c,ResultSpecification const& rs){ return ev(PROC,&c,&rs); } virtual TyErrorId reconfigure(){ return ev(RECONF); } virtual TyErrorId batchProcessComplete(){ return ev(BATCH); } virtual TyErrorId collectionProcessComplete(){ return ev(COLL); }
  virtual int getCasInstancesRequired(){ return g_need[k]; } virtual bool hasNext(){ return g_more[k]>0; } virtual CAS& next(){ --g_more[k]; ev(NEXT); CAS& c=getAnnotatorContext().getEmptyCAS(); c.setDocumentText(US("new")); return c; }
};
static Annotator* mk0(){ return new Stub(0); } static Annotator* mk1(){ return new Stub(1); } static Annotator* mk2(){ return new Stub(2); } static Annotator* mk3(){ return new Stub(3); } static Annotator* mk4(){ return new Stub(4); } static Annotator* mk5(){ return new Stub(5); } static Annotator* mk6(){ return new Stub(6); } static Annotator* mk7(){ return new Stub(7); }
static char g_lib[NK];
static unsigned g_loaded,g_unloaded; static bool g_noLib[NK],g_noSym[NK];
extern "C" {
apr_status_t apr_dso_load(apr_dso_handle_t** h,const char* path,apr_pool_t*){ const char* b=path; for(const char* p=path;*p;++p) if(*p=='/') b=p+1; int k=b[1]-'0'; if(b[0]!='a'||k<0||k>=NK||g_noLib[k]){ *h=(apr_dso_handle_t*)&g_lib[0]; return APR_EDSOOPEN; } ++g_loaded; *h=(apr_dso_handle_t*)&g_lib[k]; return APR_SUCCESS; }
apr_status_t apr_dso_unload(apr_dso_handle_t*){ ++g_unloaded; return APR_SUCCESS; }
apr_status_t apr_dso_sym(apr_dso_handle_sym_t* s,apr_dso_handle_t* h,const char*){ int k=(int)((char*)h-g_lib); if(g_noSym[k]){ *s=NULL; return APR_ESYMNOTFOUND; } static Annotator* (*F[NK])()={mk0,mk1,mk2,mk3,mk4,mk5,mk6,mk7}; *s=(apr_dso_handle_sym_t)F[k]; return APR_SUCCESS; }
const char* apr_dso_error(apr_dso_handle_t*,char* b,apr_size_t n){ if(n) b[0]=0; return b; }
}
static Capability* mkCap(const char* lang,unsigned out,int sofa){ Capability* c=new Capability(); c->addSupportedLanguage(US(lang)); if(out&1) c->addCapabilityType(US("T.A"),Capability::OUTPUT); if(out&2) c->addCapabilityType(US("T.B"),Capability::OUTPUT); if(out&4) c->addCapabilityFeature(US("T.A:i"),Capability::OUTPUT); if(sofa&1) c->addCapabilitySofa(US("s"),Capability::INPUTSOFA); if(sofa&2) c->addCapabilitySofa(US("s"),Capability::OUTPUTSOFA); return c; }
static TypeSystemDescription* mkTS(){ TypeSystemDescription* ts=new TypeSystemDescription(); static const char* N[2]={"T.A","T.B"}; for(int i=0;i<2;++i){ TypeDescription* t=new TypeDescription(); t->setName(US(N[i])); t->setSuperTypeName(US(CAS::TYPE_NAME_ANNOTATION)); if(i==0){ FeatureDescription* f=new FeatureDescription(); f->setName(US("i")); f->setRangeTypeName(US(CAS::TYPE_NAME_INTEGER)); bool fk; t->addFeatureDescription(f,fk); } bool tk; ts->addTypeDescription(t,tk); } return ts; }
static AnalysisEngineDescription* mkPrim(int k){ AnalysisEngineDescription* d=new AnalysisEngineDescription(); AnalysisEngineMetaData* m=new AnalysisEngineMetaData(); m->setName(US("stub")); m->setTypeSystemDescription(mkTS()); d->setAnalysisEngineMetaData(m); d->setPrimitive(true); char n[3]={'a',(char)('0'+k),0}; d->setAnnotatorImpName(US(n)); return d; }
static AnalysisEngineDescription* mkAggr(bool fixed){ AnalysisEngineDescription* d=new AnalysisEngineDescription(); AnalysisEngineMetaData* m=new AnalysisEngineMetaData(); m->setName(US("aggr")); m->setTypeSystemDescription(mkTS()); d->setAnalysisEngineMetaData(m); d->setPrimitive(false); m->setFlowConstraints(fixed?(FlowConstraints*)new FixedFlow():(FlowConstraints*)new CapabilityLanguageFlow()); return d; }
static const char* KEY[NK]={"d","c","b","a","f","e","aa","bb"};   // flow order differs from key order
static void addDel(AnalysisEngineDescription* a,int i,AnalysisEngineDescription* d){ a->addDelegate(US(KEY[i]),d); a->getAnalysisEngineMetaData()->getFlowConstraints()->addNode(US(KEY[i])); }
static AnalysisEngine* mkEngine(AnalysisEngineDescription* d,ErrorInfo& e){ return Framework::createAnalysisEngine(*d,e); }
static AnalysisEngine* mkEngine(AnalysisEngineDescription* d){ ErrorInfo e; AnalysisEngine* r=mkEngine(d,e); if(!r){ fprintf(stderr,"engine: %s\n",e.asString().c_str()); abort(); } return r; }
static void tofs(AnalysisEngine* e,CAS* c,bool feat){ uima::TypeSystem const& ts=c->getTypeSystem(); delete[] g_tof; g_tof=new TypeOrFeature[3]; g_tofN=3; g_tof[0]=TypeOrFeature(ts.getType(US("T.A"))); g_tof[1]=TypeOrFeature(ts.getType(US("T.B"))); g_tof[2]=TypeOrFeature(ts.getFeatureByFullName(US("T.A:i"))); }
#endif
