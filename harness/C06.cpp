// C06: reset and storage growth.
// BOUND: every history of 2 (thorough: 3) operations out of 15 (creating structures, features and arrays of all kinds with symbolic values, strings, indexing in sorted, set, bag and annotation indexes or with no index for the type, iterating, document text, document annotation, views with documents and entries) followed by reset from either view and a probe of everything observable, compared with the same probe of a newly created CAS; reset twice with use in between; arrays of each kind of sizes around every page boundary of heaps of initial capacity 2..9 with symbolic contents before and after
// BOUND: one or two rounds of heavy use (2 or 6 views each with a text and 24 structures, with or without arrays of up to 5000 elements of every kind and 400 strings; one value of each kind symbolic) and reset
// OUTSIDE: longer histories; sizes beyond four growth steps
#include "cascommon.hpp"
using namespace full;
static ll::TyFSType K; static ll::TyFSFeature kk;
static void ty(HDef& D){ types(D); K=D.type(D.ts().getTopType(),"T.K"); kk=D.feat(K,uima::internal::gs_tyIntegerType,"kk"); }
static void ix(HDef& D){ std::vector<ll::TyFSFeature> f(1,kk); std::vector<bool> r(1,false); D.index(ID::enOrdered,K,f,r,"sorted"); D.index(ID::enSet,K,f,r,"set"); D.index(ID::enFIFO,K,f,r,"bag"); }
static void setup(){ hSetup(ty,ix); }
static uint64_t O[2][512]; static int no[2]; static int cur; static void ob(uint64_t v){ if(no[cur]<512) O[cur][no[cur]]=v; ++no[cur]; }
static int count(FSIndex x){ int n=0; FSIterator it=x.iterator(); for(it.moveToFirst();it.isValid()&&n<20;it.moveToNext()) ++n; return n; }
static int indexed(CAS* c){ std::vector<ll::TyFS> v; c->iv_indexRepository->getIndexedFSs(v); return (int)v.size(); }
static void obIdx(CAS* c){ ob(indexed(c)); FSIndexRepository& r=c->getIndexRepository(); const char* L[3]={"sorted","set","bag"}; for(int k=0;k<3;++k){ FSIndex x=r.getIndex(US(L[k])); ob(x.getSize()); ob(count(x)); FSIterator it=x.iterator(); for(it.moveToFirst();it.isValid();it.moveToNext()) ob((uint32_t)it.get().getIntValue(hF(kk))); }
  ANIndex a=c->getAnnotationIndex(); ob(a.getSize()); ANIterator it=a.iterator(); int n=0; for(it.moveToFirst();it.isValid()&&n<20;it.moveToNext()){ ob(it.get().getBeginPosition()); ob(it.get().getEndPosition()); ++n; } }
static void obFS(FeatureStructure x){ ob((uint32_t)x.getIntValue(hF(i))); ob(fbits(x.getFloatValue(hF(f)))); UnicodeStringRef q=x.getStringValue(hF(s)); ob(q.getBuffer()==NULL?999:q.length()); ob(x.getBooleanValue(hF(b))); ob((uint8_t)x.getByteValue(hF(y))); ob((uint16_t)x.getShortValue(hF(h))); ob((uint64_t)x.getLongValue(hF(l))); ob(dbits(x.getDoubleValue(hF(d)))); ob(x.getFSValue(hF(r)).isValid()); ob(x.getFSValue(hF(ai)).isValid()); ob(x.isUntouchedFSValue(hF(i))); ob(x.isUntouchedFSValue(hF(l))); ob(x.isUntouchedFSValue(hF(s))); }
static void obArr(CAS* c){ ArrayFS a0=c->createArrayFS(2); StringArrayFS a1=c->createStringArrayFS(2); IntArrayFS a2=c->createIntArrayFS(2); FloatArrayFS a3=c->createFloatArrayFS(2); BooleanArrayFS a4=c->createBooleanArrayFS(2); ByteArrayFS a5=c->createByteArrayFS(2); ShortArrayFS a6=c->createShortArrayFS(2); LongArrayFS a7=c->createLongArrayFS(2); DoubleArrayFS a8=c->createDoubleArrayFS(2);
  for(int n=0;n<2;++n){ ob(a0.get(n).isValid()); ob(a1.get(n).getBuffer()!=NULL); ob((uint32_t)a2.get(n)); ob(fbits(a3.get(n))); ob(a4.get(n)); ob((uint8_t)a5.get(n)); ob((uint16_t)a6.get(n)); ob((uint64_t)a7.get(n)); ob(dbits(a8.get(n))); } }
static void obDoc(CAS* c){ ob(c->getDocumentText().length()); ob(((CAS const*)c)->getDocumentAnnotation().isValid()); ob(c->getSofa().isValid()); ob(c->getViewName().length()); ob(c->isBackwardCompatibleCas()); }
static int sofas(CAS* c){ int n=0; FSIterator it=c->getSofaIterator(); for(;it.isValid();it.moveToNext()) ++n; return n; }
static void probe(CAS* c,int v){ obIdx(c); obDoc(c); ob(sofas(c)); { FSIterator it=c->iterator(); ob(it.isValid()); }
  FeatureStructure x=c->createFS(hT(A)); obFS(x); x.setIntValue(hF(i),v); x.setLongValue(hF(l),v); obFS(x); FeatureStructure y_=c->createFS(hT(A)); obFS(y_); obArr(c);
  FeatureStructure k1=c->createFS(hT(K)),k2=c->createFS(hT(K)); k1.setIntValue(hF(kk),v); c->getIndexRepository().addFS(k1); obIdx(c); c->getIndexRepository().addFS(k2); obIdx(c);
  ob(throwsUima([&]{ c->getView(US("V")); })); ob(throwsUima([&]{ c->getView(US("W")); })); CAS* t=c->createView(US("W")); ob(throwsUima([&]{ c->createView(US("W")); })); obIdx(t); obDoc(t); ob(t->getSofa().getSofaRef()); ob(c->getView(US("W"))==t);
  AnnotationFS a=c->createAnnotation(hT(X),1,2); c->getIndexRepository().addFS(a); obIdx(c); obIdx(t); c->setDocumentText(UnicodeStringRef(u"doc",3)); obDoc(c); obIdx(c); t->setDocumentText(UnicodeStringRef(u"dd",2)); obDoc(t); obIdx(t); ob(a.getCoveredText().length()); ob(sofas(c)); FeatureStructure z=c->createFS(hT(A)); obFS(z); }
static CAS* V; static FeatureStructure olds[32]; static int nold;
static FeatureStructure keep(FeatureStructure x){ if(nold<32) olds[nold++]=x; return x; }
static void act(CAS* c,int op,int w){ uint32_t v=sx_u32(NM("v",w)); CAS* t=c; switch(op){
  case 0: { FeatureStructure x=keep(c->createFS(hT(A))); x.setIntValue(hF(i),(int)v); x.setFloatValue(hF(f),ffrom(v)); x.setBooleanValue(hF(b),v&1); x.setFSValue(hF(r),x); break; }
  case 1: { FeatureStructure x=keep(c->createFS(hT(D))); x.setByteValue(hF(y),(char)v); x.setShortValue(hF(h),(short)v); x.setLongValue(hF(l),((INT64)v<<32)|~v); x.setDoubleValue(hF(d),dfrom(((uint64_t)v<<32)|v)); break; }
  case 2: { FeatureStructure x=keep(c->createFS(hT(A))); char16_t q[3]={(char16_t)((v&0xff)|0x100),'b',(char16_t)(((v>>8)&0xff)|0x100)}; x.setStringValue(hF(s),UnicodeStringRef(q,3)); break; }
  case 3: { LongArrayFS a=c->createLongArrayFS(3); keep(a); a.set(2,v); DoubleArrayFS e=c->createDoubleArrayFS(2); e.set(0,dfrom(~(uint64_t)v)); break; }
  case 4: { ByteArrayFS a=c->createByteArrayFS(4); keep(a); a.set(1,(char)v); BooleanArrayFS e=c->createBooleanArrayFS(2); e.set(1,true); ShortArrayFS q=c->createShortArrayFS(3); q.set(0,(short)v); break; }
  case 5: { IntArrayFS a=c->createIntArrayFS(3); keep(a); a.set(1,(int)v); StringArrayFS e=c->createStringArrayFS(2); e.set(0,UnicodeStringRef(u"zz",2)); ArrayFS q=c->createArrayFS(2); q.set(1,a); break; }
  case 6: case 7: { FeatureStructure x=keep(c->createFS(hT(K))); x.setIntValue(hF(kk),(int)v); c->getIndexRepository().addFS(x); if(op==7) count(c->getIndexRepository().getIndex(US("sorted"))); break; }
  case 8: { AnnotationFS a=c->createAnnotation(hT(X),v&0xffff,v>>16); keep(a); c->getIndexRepository().addFS(a); count(c->getAnnotationIndex()); break; }
  case 9: { char16_t q[2]={'x',(char16_t)((v&0xff)|0x100)}; c->setDocumentText(UnicodeStringRef(q,2)); break; }
  case 10: { keep(c->getDocumentAnnotation()); break; }
  case 11: case 12: { CAS* n=0; if(!throwsUima([&]{ n=c->createView(op==11?US("V"):US("W")); })){ V=n; if(v&1) n->setDocumentText(UnicodeStringRef(u"view",4)); FeatureStructure x=keep(n->createFS(hT(K))); x.setIntValue(hF(kk),(int)v); n->getIndexRepository().addFS(x); } break; }
  case 13: { if(V) t=V; AnnotationFS a=t->createAnnotation(hT(Y),v&0xff,(v&0xff)+1); keep(a); t->getIndexRepository().addFS(a); break; }
  case 14: { if(V) t=V; FeatureStructure x=keep(t->createFS(hT(A))); t->getIndexRepository().addFS(x); t->getIndexRepository().addFS(keep(t->createIntArrayFS(1))); break; } } }
static void compare(){ SX_ASSERT(no[0]==no[1]&&no[0]<512,"the same observations"); unsigned long long d=0; for(int n=0;n<no[0]&&n<512;++n){ SX_ASSERT(O[0][n]==O[1][n],"a reset CAS is observed like a new one"); symx_observe(O[1][n]); } }
static void both(CAS* c,int v){ CAS* n=hCreate(g_def); no[0]=no[1]=0; cur=0; probe(n,v); cur=1; probe(c,v); compare(); }
static void rst(CAS* c){ SX_ASSERT(c->reset()==UIMA_ERR_NONE,"reset succeeds"); bool any=false; for(int n=0;n<nold;++n) any=any|olds[n].isValid(); SX_ASSERT(!any,"structures from before are invalid after reset"); nold=0; V=0; }
SYMX_SCENARIO_SETUP(reset,setup){ nold=0; V=0; int W=symx_thorough()?3:2; for(int w=0;w<W;++w) act(g_cas,sx_choose(NM("op",w),15),w); CAS* from=V&&sx_choose("from",2)?V:g_cas; rst(from); both(g_cas,(int)sx_u32("v")); symx_reached("reset"); }
// use, reset, use, reset
SYMX_SCENARIO_SETUP(again,setup){ nold=0; V=0; act(g_cas,sx_choose("op1",15),1); rst(g_cas); act(g_cas,sx_choose("op2",15),2); if(sx_choose("probe",2)){ no[0]=0; cur=0; throwsUima([&]{ probe(g_cas,7); }); } rst(g_cas); both(g_cas,(int)sx_u32("v")); symx_reached("twice"); }
SYMX_SCENARIO_SETUP(three,setup){ nold=0; V=0; int a=sx_choose("op0",15),q=sx_choose("view",2); act(g_cas,11+q,0); act(g_cas,a,1); act(g_cas,a==9?8:9,2); rst(sx_choose("from",2)&&V?V:g_cas); both(g_cas,(int)sx_u32("v")); symx_reached("three"); }
// growth: contents survive, new storage is blank
static CAS* small(int cells){ CAS* bc=new uima::internal::CASImpl(*g_def,(size_t)cells,(size_t)(2+cells),(size_t)2); return bc->getInitialView(); }
template<class Arr,class T> static void grow(CAS* c,Arr a,int n,T v,uint64_t(*bits)(T),T z){ SX_ASSERT((int)a.size()==n,"size"); for(int k=0;k<n;++k) SX_ASSERT(bits(a.get(k))==bits(z),"new storage is blank"); if(n){ a.set(0,v); a.set(n-1,v); SX_ASSERT(bits(a.get(0))==bits(v)&&bits(a.get(n-1))==bits(v),"written"); for(int k=1;k<n-1;++k) SX_ASSERT(bits(a.get(k))==bits(z),"others blank"); } }
SYMX_SCENARIO_SETUP(growth,setup){ CAS* c=small(2+sx_choose("cells",8)); uint64_t v=sx_u64("v"); FeatureStructure x=c->createFS(hT(A)); char16_t q[2]={(char16_t)((v&0xff)|0x100),'b'};
  x.setIntValue(hF(i),(int)v); x.setFloatValue(hF(f),ffrom((uint32_t)(v>>8))); x.setStringValue(hF(s),UnicodeStringRef(q,2)); x.setBooleanValue(hF(b),v&1); x.setByteValue(hF(y),(char)v); x.setShortValue(hF(h),(short)v); x.setLongValue(hF(l),(INT64)v); x.setDoubleValue(hF(d),dfrom(~v)); x.setFSValue(hF(r),x); LongArrayFS la=c->createLongArrayFS(2); la.set(1,(INT64)~v); ShortArrayFS sa=c->createShortArrayFS(1); sa.set(0,(short)(v>>16)); ByteArrayFS ya=c->createByteArrayFS(3); ya.set(2,(char)(v>>24)); StringArrayFS ra=c->createStringArrayFS(1); ra.set(0,UnicodeStringRef(q,2));
  for(int w=0;w<2;++w){ int n=sx_choose(NM("size",w),symx_thorough()?24:w?3:12)*(w?7:1); uint64_t u=sx_u64(NM("u",w)); switch(sx_choose(NM("kind",w),7)){
    case 0: grow<IntArrayFS,int>(c,c->createIntArrayFS(n),n,(int)u,[](int t){ return (uint64_t)(uint32_t)t; },0); break; case 1: grow<FloatArrayFS,float>(c,c->createFloatArrayFS(n),n,ffrom((uint32_t)u),[](float t){ return (uint64_t)fbits(t); },0.f); break; case 2: grow<ByteArrayFS,char>(c,c->createByteArrayFS(n),n,(char)u,[](char t){ return (uint64_t)(uint8_t)t; },0); break; case 3: grow<ShortArrayFS,short>(c,c->createShortArrayFS(n),n,(short)u,[](short t){ return (uint64_t)(uint16_t)t; },0); break; case 4: grow<LongArrayFS,INT64>(c,c->createLongArrayFS(n),n,(INT64)u,[](INT64 t){ return (uint64_t)t; },0); break; case 5: grow<DoubleArrayFS,double>(c,c->createDoubleArrayFS(n),n,dfrom(u),[](double t){ return dbits(t); },0.0); break;
    case 6: { StringArrayFS a=c->createStringArrayFS(n); char16_t p[3]={(char16_t)((u&0xff)|0x100),'k','l'}; for(int k=0;k<n;++k){ SX_ASSERT(a.get(k).getBuffer()==NULL,"new string elements are unset"); a.set(k,UnicodeStringRef(p,k%4>2?3:k%4)); } for(int k=0;k<n;++k) SX_ASSERT(eqU(a.get(k),p,k%4>2?3:k%4),"strings survive"); break; } }
    SX_ASSERT(x.getIntValue(hF(i))==(int)v,"int survives"); SX_ASSERT(fbits(x.getFloatValue(hF(f)))==(uint32_t)(v>>8),"float survives"); SX_ASSERT(eqU(x.getStringValue(hF(s)),q,2)&&eqU(ra.get(0),q,2),"string survives"); SX_ASSERT(x.getBooleanValue(hF(b))==((v&1)!=0),"boolean survives"); SX_ASSERT(x.getByteValue(hF(y))==(char)v,"byte survives"); SX_ASSERT(x.getShortValue(hF(h))==(short)v,"short survives"); SX_ASSERT(x.getLongValue(hF(l))==(INT64)v,"long survives"); SX_ASSERT(dbits(x.getDoubleValue(hF(d)))==~v,"double survives"); SX_ASSERT(x.getFSValue(hF(r))==x,"reference survives"); SX_ASSERT(la.get(0)==0&&la.get(1)==(INT64)~v&&sa.get(0)==(short)(v>>16)&&ya.get(0)==0&&ya.get(2)==(char)(v>>24),"array elements survive");
    FeatureStructure z=c->createFS(hT(D)); SX_ASSERT(z.getIntValue(hF(bi))==0&&z.getLongValue(hF(l))==0&&!z.getFSValue(hF(r)).isValid()&&z.getStringValue(hF(s)).getBuffer()==NULL,"new structures are blank"); }
  symx_reached("growth"); }
// heavy use before the reset: several views, grown heaps, many structures and index entries
static void heavy(CAS* c,int q,uint32_t v){ CAS* t=c; int nv=q&1?6:2; for(int k=0;k<nv;++k){ char nmv[2]={(char)('K'+k*2),0}; if(k) t=c->createView(US(nmv)); V=t; char16_t big[300]; for(int j=0;j<300;++j) big[j]=(char16_t)(0x21+j%90); big[299]=(char16_t)((v&0xff)|0x100); t->setDocumentText(UnicodeStringRef(big,k%2?300:5)); for(int j=0;j<8;++j){ FeatureStructure x=keep(t->createFS(hT(K))); x.setIntValue(hF(kk),j*5%7); t->getIndexRepository().addFS(x); AnnotationFS a=t->createAnnotation(hT(j%2?X:Y),j,j+2); t->getIndexRepository().addFS(a); FeatureStructure y_=t->createFS(hT(D)); y_.setLongValue(hF(l),(INT64)v<<20|j); y_.setDoubleValue(hF(d),j); y_.setStringValue(hF(s),UnicodeStringRef(big+j,20+j)); } count(t->getAnnotationIndex()); count(t->getIndexRepository().getIndex(US("sorted"))); }
  if(q&2){ keep(c->createIntArrayFS(3000)).isValid(); LongArrayFS la=c->createLongArrayFS(700); la.set(699,v); DoubleArrayFS da=c->createDoubleArrayFS(300); da.set(150,1.5); ByteArrayFS ba=c->createByteArrayFS(5000); ba.set(4999,(char)v); ShortArrayFS ha=c->createShortArrayFS(900); ha.set(0,(short)v); StringArrayFS sa=c->createStringArrayFS(400); for(int j=0;j<400;++j) sa.set(j,UnicodeStringRef(u"abcdef",j%7)); } }
SYMX_SCENARIO_SETUP(heavy_,setup){ nold=0; V=0; int n=1+sx_choose("rounds",2); for(int k=0;k<n;++k){ heavy(g_cas,sx_choose(nm("how",k),4),sx_u32(nm("h",k))); rst(sx_choose(nm("from",k),2)?V:g_cas); } both(g_cas,(int)sx_u32("v")); symx_reached("heavy"); }
