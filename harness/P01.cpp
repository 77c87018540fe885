// P01: the CAS pool.
// BOUND: pools of 1..3 CASes; every sequence of up to 5 (thorough 6, 7 for a single CAS) operations out of: take a CAS, return a held CAS through its initial view, through a view created on it, through its base CAS, return it once more, return a CAS of another pool; CASes are filled (text, a structure in the index, a further view, arbitrary feature value) between taking and returning
// BOUND: a pool of 12: all taken, any number returned in 48 orders (some twice, some through another view), taken again; 30 rounds of taking and returning
// OUTSIDE: pools used from several threads (M01), construction from a descriptor file
#include "cascommon.hpp"
#include <uima/caspool.hpp>
#include <uima/annotator_context.hpp>
#include <uima/taespecifier.hpp>
static CASPool* pool[4]; static CASPool* other; static AnnotatorContext* ctx;
static AnalysisEngineDescription* mk(){ AnalysisEngineDescription* d=new AnalysisEngineDescription(); AnalysisEngineMetaData* m=new AnalysisEngineMetaData(); m->setName(US("pool")); TypeSystemDescription* ts=new TypeSystemDescription(); TypeDescription* t=new TypeDescription(); t->setName(US("T.X")); t->setSuperTypeName(US(CAS::TYPE_NAME_ANNOTATION)); FeatureDescription* f=new FeatureDescription(); f->setName(US("f")); f->setRangeTypeName(US(CAS::TYPE_NAME_INTEGER)); bool fk; t->addFeatureDescription(f,fk); bool tk; ts->addTypeDescription(t,tk); m->setTypeSystemDescription(ts); d->setAnalysisEngineMetaData(m); d->setPrimitive(true); return d; }
static void setup(){ hResMgr(); for(int i=0;i<4;++i) pool[i]=new CASPool(*mk(),i); other=new CASPool(*mk(),1); ctx=new AnnotatorContext(mk()); ctx->defineCASPool(2); }
static int count(FSIterator it){ int n=0; for(it.moveToFirst();it.isValid();it.moveToNext()) ++n; return n; }
static bool empty(CAS& c){ return c.getDocumentText().length()==0 && count(c.getAnnotationIndex().iterator())==0 && count(c.getSofaIterator())==0 && &c==c.getInitialView() && throwsUima([&]{ c.getView(US("v")); }); }
static void fill(CAS& c,int i,int how){ unsigned b=sx_u32(nm("b",i)); Type T=c.getTypeSystem().getType(US("T.X")); Feature F=T.getFeatureByBaseName(US("f")); c.setDocumentText(US("some text")); AnnotationFS a=c.createAnnotation(T,1,2); a.setIntValue(F,(int)b); c.getIndexRepository().addFS(a); if(how){ CAS* v=c.createView(US("v")); v->setDocumentText(US("other")); AnnotationFS x=v->createAnnotation(T,0,1); x.setIntValue(F,(int)~b); v->getIndexRepository().addFS(x); SX_ASSERT((unsigned)x.getIntValue(F)==~b&&count(v->getAnnotationIndex().iterator())==2,"used view"); } SX_ASSERT((unsigned)a.getIntValue(F)==b&&count(c.getAnnotationIndex().iterator())==2,"used"); }
static void history(CASPool& p,int size,int steps){
  CAS* held[4]={0,0,0,0}; int viewed[4]={0,0,0,0}; int nh=0; CAS* last=0; CAS* foreign=0;
  for(int s=0;s<steps;++s){ int op=sx_choose(nm("op",s),7); if(op==6) break;
    if(op==0||op==1){ CAS* c=0; bool thrown=throwsUima([&]{ c=&p.getCAS(); }); SX_ASSERT(thrown==(nh==size),"a CAS is available unless all are out"); if(thrown){ symx_reached("exhausted"); continue; }
      bool dup=false; for(int i=0;i<nh;++i) dup|=held[i]==c; SX_ASSERT(!dup,"not currently held by anyone else"); SX_ASSERT(empty(*c),"handed out empty"); for(int i=0;i<nh;++i) SX_ASSERT(held[i]->getBaseCas()!=c->getBaseCas(),"separate contents"); fill(*c,s,op); viewed[nh]=op; held[nh++]=c; }
    else if(op<=4){ if(nh==0) return; int k=nh>1?sx_choose(nm("k",s),nh):0; CAS* c=held[k]; CAS* r=c; if(op==3){ if(!viewed[k]) return; r=c->getView(US("v")); } if(op==4) r=c->getBaseCas(); p.releaseCAS(*r); if(op!=2) symx_reached("returned through another view"); last=c; held[k]=held[nh-1]; viewed[k]=viewed[nh-1]; --nh; }
    else { int w=sx_choose(nm("w",s),2); if(w==0){ if(!last) return; bool out=false; for(int i=0;i<nh;++i) out|=held[i]==last; if(out) return; p.releaseCAS(*last); symx_reached("returned twice"); } else { if(!foreign) foreign=&other->getCAS(); foreign->setDocumentText(US("mine")); p.releaseCAS(*foreign); SX_ASSERT(foreign->getDocumentText().length()==4,"a CAS of another pool stays with its holder"); symx_reached("foreign"); } }
  }
  // what is free now: exactly size-nh distinct empty ones
  CAS* rest[4]; int nr=0; for(int i=0;i<5;++i){ CAS* c=0; if(throwsUima([&]{ c=&p.getCAS(); })) break; if(nr<4) rest[nr]=c; ++nr; }
  SX_ASSERT(nr==size-nh,"at most the pool size out at once, every returned CAS available again"); bool bad=false; for(int i=0;i<nr;++i){ bad|=!empty(*rest[i]); for(int j=0;j<nh;++j) bad|=rest[i]==held[j]; for(int j=0;j<i;++j) bad|=rest[i]==rest[j]; bad|=rest[i]==foreign; } SX_ASSERT(!bad,"distinct and empty"); for(int i=0;i<nh;++i) SX_ASSERT(count(held[i]->getAnnotationIndex().iterator())==2,"held CASes keep their contents"); symx_observe(nr);
}
SYMX_SCENARIO_SETUP(size1,setup){ history(*pool[1],1,symx_thorough()?6:5); }
SYMX_SCENARIO_SETUP(size2,setup){ history(*pool[2],2,symx_thorough()?6:5); }
SYMX_SCENARIO_SETUP(size3,setup){ history(*pool[3],3,symx_thorough()?6:5); }
SYMX_SCENARIO_SETUP(size0,setup){ SX_ASSERT(throwsUima([&]{ pool[0]->getCAS(); }),"an empty pool has no CAS"); symx_reached("none"); }
SYMX_SCENARIO_SETUP(context,setup){ CAS& a=ctx->getEmptyCAS(); CAS& b=ctx->getEmptyCAS(); fill(a,0,0); fill(b,1,1); SX_ASSERT(&a!=&b&&throwsUima([&]{ ctx->getEmptyCAS(); }),"as many as the component asked for"); int k=sx_choose("k",2); ctx->releaseCAS(k?a:b); CAS& c=ctx->getEmptyCAS(); SX_ASSERT(&c==(k?&a:&b)&&empty(c),"returned one comes back"); symx_reached("context"); }
// a larger pool: every order of returning
static CASPool* big; static void setupBig(){ hResMgr(); big=new CASPool(*mk(),12); }
SYMX_SCENARIO_SETUP(size12,setupBig){ CAS* held[12]; for(int i=0;i<12;++i){ CAS* c=0; SX_ASSERT(!throwsUima([&]{ c=&big->getCAS(); }),"twelve are available"); bool dup=!empty(*c); for(int j=0;j<i;++j) dup|=held[j]->getBaseCas()==c->getBaseCas(); SX_ASSERT(!dup,"each another and empty"); held[i]=c; if(i%5==2) fill(*c,i,i%2); } SX_ASSERT(throwsUima([&]{ big->getCAS(); }),"a thirteenth is not");
  int from=sx_choose("from",12),step=sx_choose("step",4),n=1+sx_choose("n",12); static const int ST[4]={1,5,7,11}; bool out[12]; for(int i=0;i<12;++i) out[i]=true; CAS* free_[12]; for(int j=0;j<n;++j){ int k=(from+j*ST[step])%12; CAS* r=held[k]; if(k%5==2&&k%2) r=r->getView(US("v")); big->releaseCAS(*r); out[k]=false; free_[j]=held[k]; if(j%4==1) big->releaseCAS(*held[k]); }
  CAS* got[12]; int m=0; for(;m<12;++m){ CAS* c=0; if(throwsUima([&]{ c=&big->getCAS(); })) break; got[m]=c; } SX_ASSERT(m==n,"as many as were returned"); bool bad=false; for(int i=0;i<m;++i){ bool isfree=false; for(int j=0;j<n;++j) isfree|=free_[j]==got[i]; bad|=!isfree||!empty(*got[i]); for(int j=0;j<i;++j) bad|=got[i]==got[j]; } SX_ASSERT(!bad,"the returned ones, empty"); for(int i=0;i<12;++i) if(out[i]&&i%5==2) SX_ASSERT(count(held[i]->getAnnotationIndex().iterator())==2,"held ones keep their contents"); symx_reached("twelve"); }
// many rounds
SYMX_SCENARIO_SETUP(rounds,setupBig){ int a=sx_choose("a",3),b=1+sx_choose("b",4); CAS* h[12]; int n=0; unsigned bad=0; for(int r=0;r<30;++r){ int take=(r*b+a)%5; for(int i=0;i<take;++i){ CAS* c=0; bool th=throwsUima([&]{ c=&big->getCAS(); }); bad|=(unsigned)(th!=(n==12)); if(th) break; for(int j=0;j<n;++j) bad|=(unsigned)(h[j]==c); bad|=(unsigned)(c->getDocumentText().length()!=0); c->setDocumentText(US("x")); h[n++]=c; } int put=(r+b)%4; for(int i=0;i<put&&n;++i){ int k=(r*7+i)%n; big->releaseCAS(*h[k]); h[k]=h[--n]; } } SX_ASSERT(bad==0,"every round hands out free, empty CASes"); unsigned q=sx_u32("q"); int left=0; while(n<12){ CAS* c=0; if(throwsUima([&]{ c=&big->getCAS(); })) break; AnnotationFS f=c->createAnnotation(c->getTypeSystem().getType(US("T.X")),(int)q,(int)q); c->getIndexRepository().addFS(f); SX_ASSERT((unsigned)f.getBeginPosition()==q&&count(c->getAnnotationIndex().iterator())==1,"usable"); h[n++]=c; ++left; } SX_ASSERT(n==12,"none is lost"); symx_reached("rounds"); }
