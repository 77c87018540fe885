// T01: sofa mappings.
// BOUND: an aggregate within an aggregate (thorough: within a third one) with up to 1 (thorough 2; 2 in a single aggregate, 2 outside and 1 inside without keys) mappings each, any of them for the nested component or for another one, component and aggregate names of one arbitrary letter each (component names may also be empty: the default text sofa); any one-letter queried name; contexts built once and twice from the same description, committed or not
// BOUND: views: two components with up to 2 mappings, each creating and looking up any of three names, names mapped to the initial view included
// BOUND: names of up to 29 letters (one letter arbitrary), 12 mappings per level for two components each
// OUTSIDE: mappings written in descriptor files, qualified (dotted) names
#include "cascommon.hpp"
#include <uima/annotator_context.hpp>
#include <uima/taespecifier.hpp>
#include <uima/sofamapping.hpp>
static void setup(){ hResMgr(); }
static AnalysisEngineDescription* mkAE(const char* n,bool prim){ AnalysisEngineDescription* d=new AnalysisEngineDescription(); AnalysisEngineMetaData* m=new AnalysisEngineMetaData(); m->setName(US(n)); m->setTypeSystemDescription(new TypeSystemDescription()); d->setAnalysisEngineMetaData(m); d->setPrimitive(prim); return d; }
// a name is a code unit; 0 is the default text sofa
static icu::UnicodeString nmU(unsigned c,bool asDefault){ if(c==0) return asDefault?US(CAS::NAME_DEFAULT_TEXT_SOFA):US(""); char16_t b[1]={(char16_t)c}; return icu::UnicodeString(b,1); }
struct M { int key; unsigned c,a; };
static unsigned letter(const char* n,int i,const char* q){ unsigned c=sx_u8(nm(n,i,q))^'a'; symx_assume(c!=0&&c<128); return c; }
static M mkM(const char* n,int i,bool other){ M m; m.key=other?sx_choose(nm(n,i,"key"),2):0; m.c=(i==0&&sx_choose(nm(n,i,"dflt"),2))?0:letter(n,i,"c"); m.a=letter(n,i,"a"); return m; }
static void put(AnalysisEngineDescription* d,M const& m,const char* key){ SofaMapping* s=new SofaMapping(); s->setComponentKey(US(m.key?"other":key)); s->setComponentSofaName(nmU(m.c,false)); s->setAggregateSofaName(nmU(m.a,false)); d->addSofaMapping(s); }
static unsigned apply(M const* m,int n,unsigned q,unsigned& mapped){ unsigned r=q; mapped=0; for(int i=0;i<n;++i) if(m[i].key==0){ unsigned h=(unsigned)(m[i].c==q),e=0u-h; r=(r&~e)|(m[i].a&e); mapped|=h; } return r; }
static void nested(int levels,int maxm,bool dfltq){
  // level 0 is the outermost aggregate
  static const char* K[3]={"l1","l2","l3"}; M m[3][3]; int n[3]; AnalysisEngineDescription* d[4];
  d[0]=mkAE("top",false); for(int l=1;l<=levels;++l){ d[l]=mkAE(K[l-1],l==levels); }
  for(int l=0;l<levels;++l){ n[l]=sx_choose(nm("n",l),maxm+1); for(int i=0;i<n[l];++i){ m[l][i]=mkM(l==0?"A":l==1?"B":"C",i,i==1); put(d[l],m[l][i],K[l]); } }
  for(int l=0;l<levels;++l){ d[l]->addDelegate(US(K[l]),d[l+1]); if(l==0) d[l]->addDelegate(US("other"),mkAE("o",true)); }
  int tc=maxm>1&&levels>1?2:sx_choose("tc",3),times=1+(tc>0); if(tc>1) d[0]->commit(); AnnotatorContext* c=0; for(int t=0;t<times;++t) c=new AnnotatorContext(d[0]);
  unsigned q=dfltq?0:letter("q",0,""); AnnotatorContext* x=c; bool all=true;
  for(int l=0;l<levels;++l){ x=x->getDelegate(US(K[l])); if(!x){ all=false; break; } unsigned r=q,on=1,nmapped=0; for(int k=l;k>=0;--k){ unsigned mp,v=apply(m[k],n[k],r,mp); mp&=on; r=(v&(0u-mp))|(r&~(0u-mp)); on=mp; nmapped+=mp; }
    SofaID const& s=x->mapToSofaID(nmU(q,true)); icu::UnicodeString want=nmU(r,true); SX_ASSERT(s.getSofaId()==want,"the name in the CAS"); SX_ASSERT(s.getComponentSofaName()==nmU(q,true),"the component's own name"); SX_ASSERT(&x->mapToSofaID(nmU(q,true))==&s&&s.getSofaId()==want,"asked again"); if(nmapped>1) symx_reached("mapped twice"); }
  SX_ASSERT(all,"contexts of the delegates"); SofaID const& t=c->mapToSofaID(nmU(q,true)); SX_ASSERT(t.getSofaId()==nmU(q,true),"without mapping the identity");
}
SYMX_SCENARIO_SETUP(nested1,setup){ nested(1,2,false); }
SYMX_SCENARIO_SETUP(nested2,setup){ nested(2,symx_thorough()?2:1,false); }
SYMX_SCENARIO_SETUP(nested2default,setup){ nested(2,1,true); }
SYMX_SCENARIO_SETUP(swapped,setup){ // two mappings outside, one inside
  AnalysisEngineDescription* t=mkAE("top",false); AnalysisEngineDescription* n=mkAE("n",false); AnalysisEngineDescription* p=mkAE("p",true); M o[2],i[1]; for(int k=0;k<2;++k){ o[k].key=0; o[k].c=letter("o",k,"c"); o[k].a=letter("o",k,"a"); put(t,o[k],"n"); } i[0].key=0; i[0].c=letter("i",0,"c"); i[0].a=letter("i",0,"a"); put(n,i[0],"p"); n->addDelegate(US("p"),p); t->addDelegate(US("n"),n); AnnotatorContext* c=new AnnotatorContext(t); AnnotatorContext* x=c->getDelegate(US("n"))->getDelegate(US("p")); unsigned mp,r=apply(o,2,i[0].a,mp); SX_ASSERT(x->mapToSofaID(nmU(i[0].c,true)).getSofaId()==nmU(r,true),"every enclosing aggregate's mapping applied once"); if(o[0].a==o[1].c&&o[1].a==o[0].c) symx_reached("swap"); }
SYMX_SCENARIO_SETUP(deep_nested3,setup){ nested(3,1,false); }
// views seen by components
static void vsetup(){ hSetup([](HDef& D){},nullptr); }
static AnnotatorContext* comp[2];
SYMX_SCENARIO_SETUP(views,vsetup){
  static const char* A[3]={"x","y",CAS::NAME_DEFAULT_SOFA}; static const char* L[3]={"l","m",CAS::NAME_DEFAULT_SOFA}; int map[2][3]; // -1 unmapped else index into A
  AnalysisEngineDescription* t=mkAE("top",false); for(int k=0;k<2;++k) t->addDelegate(US(k?"c1":"c0"),mkAE("c",true));
  for(int k=0;k<2;++k) for(int j=0;j<3;++j){ map[k][j]=-1; if(j==1) continue; int v=sx_choose(nm("map",k*3+j),4)-1; map[k][j]=v; if(v>=0){ SofaMapping* s=new SofaMapping(); s->setComponentKey(US(k?"c1":"c0")); s->setComponentSofaName(US(L[j])); s->setAggregateSofaName(US(A[v])); t->addSofaMapping(s); } }
  AnnotatorContext* c=new AnnotatorContext(t); auto real=[&](int k,int j){ return map[k][j]>=0?US(A[map[k][j]]):US(L[j]); };
  int j0=sx_choose("j0",3),j1=sx_choose("j1",3); g_cas->setCurrentComponentInfo(c->getDelegate(US("c0"))); icu::UnicodeString r0=real(0,j0),r1=real(1,j1); bool init0=r0==US(CAS::NAME_DEFAULT_SOFA),init1=r1==US(CAS::NAME_DEFAULT_SOFA);
  CAS* v=0; bool th=throwsUima([&]{ v=g_cas->createView(US(L[j0])); }); SX_ASSERT(th==init0,"created unless it stands for the initial view"); if(th) v=g_cas->getInitialView(); unsigned b=sx_u32("b"); AnnotationFS a=v->createAnnotation(g_cas->getTypeSystem().getType(US(CAS::TYPE_NAME_ANNOTATION)),(int)b,(int)b); v->getIndexRepository().addFS(a);
  if(!th) SX_ASSERT(v->getViewName()==UnicodeStringRef(r0),"named as mapped");
  CAS* w=0; SX_ASSERT(!throwsUima([&]{ w=g_cas->getView(US(L[j0])); })&&w==v,"found by the creator under its own name");
  g_cas->setCurrentComponentInfo(c->getDelegate(US("c1"))); CAS* z=0; bool nf=throwsUima([&]{ z=v->getView(US(L[j1])); }); bool same=r0==r1; SX_ASSERT(nf==!(same||init1),"found exactly under names mapped to it"); if(!nf){ SX_ASSERT((z==v)==same,"the same view"); if(same){ FSIterator it=z->getAnnotationIndex().iterator(); SX_ASSERT(it.isValid()&&(unsigned)AnnotationFS(it.get()).getBeginPosition()==b,"its contents"); symx_reached("shared"); } }
  bool dup=throwsUima([&]{ g_cas->createView(US(L[j1])); }); SX_ASSERT(dup==(same||init1),"created twice is an error");
  g_cas->setCurrentComponentInfo(NULL); CAS* y=0; SX_ASSERT(!throwsUima([&]{ y=g_cas->getView(r0); })&&y==v,"found by the application under the mapped name"); symx_observe(nf);
}
// longer names and many mappings
SYMX_SCENARIO_SETUP(many,setup){ enum{N=12}; AnalysisEngineDescription* t=mkAE("top",false); AnalysisEngineDescription* n=mkAE("n",false); AnalysisEngineDescription* p=mkAE("p",true); char16_t q=(char16_t)letter("q",0,""); int at=sx_choose("at",3)*5; auto nm_=[&](const char* pre,int i){ char b[64]; sprintf(b,i%3==0?"%s-with-a-longer-name-%d":"%s%d",pre,i); icu::UnicodeString s=US(b); if(i==at) s.setCharAt(s.length()/2,q); return s; };
  auto put_=[&](AnalysisEngineDescription* d,const char* key,icu::UnicodeString const& c,icu::UnicodeString const& a){ SofaMapping* s=new SofaMapping(); s->setComponentKey(US(key)); s->setComponentSofaName(c); s->setAggregateSofaName(a); d->addSofaMapping(s); };
  for(int i=0;i<N;++i){ put_(n,"p",nm_("inner",i),nm_("mid",i)); put_(n,"z",nm_("inner",i),US("wrong")); put_(t,i%2?"n":"zz",nm_("mid",i),nm_("outer",i)); } n->addDelegate(US("p"),p); n->addDelegate(US("z"),mkAE("z",true)); t->addDelegate(US("n"),n); t->addDelegate(US("zz"),mkAE("y",true)); if(sx_choose("commit",2)) t->commit(); AnnotatorContext* c=new AnnotatorContext(t); AnnotatorContext* x=c->getDelegate(US("n"))->getDelegate(US("p")); unsigned bad=0; for(int i=0;i<N;++i){ icu::UnicodeString in=nm_("inner",i),want=i%2?nm_("outer",i):nm_("mid",i); SofaID const& s=x->mapToSofaID(in); bad|=(unsigned)!(s.getSofaId()==want)|(unsigned)!(s.getComponentSofaName()==in); in.append((UChar)u'x'); bad|=(unsigned)!(x->mapToSofaID(in).getSofaId()==in); icu::UnicodeString sh=nm_("inner",i); sh.truncate(sh.length()-1); bool other=false; for(int j=0;j<N;++j) other|=nm_("inner",j)==sh; if(!other) bad|=(unsigned)!(x->mapToSofaID(sh).getSofaId()==sh); } SX_ASSERT(bad==0,"every name of many goes through its own mappings, names near it through none"); symx_reached("many"); }
