// S04: XMI output read back gives the same CAS.
// BOUND: a structure with any integer, short, long, byte and boolean values, any string of 0..2 (thorough: 0..3) characters out of everything XML can represent, as feature value and as document text; floats and doubles out of 13 boundary values (the zeros, infinities, NaN, extremes, denormals, values needing 9 or 17 digits); arrays of every kind and lists of every kind with 0..2 elements in the four placements (only referenced, embedded, multiple references, two references); three structures of 2 (thorough: 5) types with every reference graph and root set; every subset of 8 types (thorough: 9) in namespaces that coincide, are missing or contain "xmi"; every choice of three views with any kind of Sofa and membership; annotations in two views; four languages; a service with a smaller type system that passes on what it does not know; a CAS used and reset before; structures indexed in 9 and 100 views
// BOUND: a CAS of 5 views, 60 structures, 24 annotations, arrays of 19 to 87 elements of every kind and strings of up to 390 characters with one arbitrary value of each size and one arbitrary character
// BOUND: arrays of 33 and 100 elements and lists of 30 of every kind in the four placements with one arbitrary element
// OUTSIDE: XML-illegal characters; null elements of string arrays and lists (XMI has no form for them); identity of arrays and lists embedded in features that do not allow multiple references; a structure added several times to one bag index; non-ASCII type and feature names; features whose declared range is a concrete list node type; the digits made by the C++ library for floats other than those listed; the markup details left to Xerces (the harness's XML processor stands in for it, and Xerces itself runs in the replay); XCAS
#include "xml.hpp"
#include <uima/xmiwriter.hpp>
#include <uima/xmideserializer.hpp>
#include <uima/xmishareddata.hpp>
#include <uima/xmlwriter.hpp>
#include <uima/xcasdeserializer.hpp>
static FILE* SHOWF=getenv("SHOW")?fopen("/tmp/show","w"):0;
static Dump da_,db_;
static ll::TyFSType N_,M_,Q_,W_,ST_; static ll::TyFSFeature id_,li,lf,ls,lr,mai,maf,mas,mab,may,mah,mal,mad,mar,mli,mlf,mls,mlr,ns_,wr,qr,tr,xr,yr,nr; static ll::TyFSType AX_,XT_,NN_;
static void s04Types(HDef& D){ serTypes(D); using namespace uima::internal; ll::TypeSystem& ts=D.ts(); N_=D.type(ts.getTopType(),"q.p.N"); M_=D.type(ts.getTopType(),"r.p.N"); Q_=D.type(ts.getTopType(),"Plain"); W_=D.type(gs_tyAnnotationType,"x.axmi.W"); ST_=D.type(ts.getTopType(),"T.p.Third");
  ns_=D.feat(N_,gs_tyStringType,"ns"); wr=D.feat(W_,ts.getTopType(),"wr"); qr=D.feat(Q_,ts.getTopType(),"qr"); tr=D.feat(ST_,ts.getTopType(),"tr"); AX_=D.type(ts.getTopType(),"a.xmi.T"); XT_=D.type(ts.getTopType(),"b.c.xmiT"); xr=D.feat(AX_,ts.getTopType(),"xr"); yr=D.feat(XT_,ts.getTopType(),"yr"); NN_=D.type(ts.getTopType(),"noNamespace.N2"); nr=D.feat(NN_,ts.getTopType(),"nr");
  li=D.feat(N_,gs_tyIntListType,"li"); lf=D.feat(N_,gs_tyFloatListType,"lf"); ls=D.feat(N_,gs_tyStringListType,"ls"); lr=D.feat(N_,gs_tyFSListType,"lr");
  ll::TyFSType R[13]={gs_tyIntArrayType,gs_tyFloatArrayType,gs_tyStringArrayType,gs_tyBooleanArrayType,gs_tyByteArrayType,gs_tyShortArrayType,gs_tyLongArrayType,gs_tyDoubleArrayType,gs_tyFSArrayType,gs_tyIntListType,gs_tyFloatListType,gs_tyStringListType,gs_tyFSListType}; ll::TyFSFeature* F[13]={&mai,&maf,&mas,&mab,&may,&mah,&mal,&mad,&mar,&mli,&mlf,&mls,&mlr}; static const char* NM_[13]={"mai","maf","mas","mab","may","mah","mal","mad","mar","mli","mlf","mls","mlr"};
  for(int k=0;k<13;++k) *F[k]=ts.createFeature(M_,R[k],true,US(NM_[k]),US("h")); }
static HDef* g_small; // a type system without the type Plain and without some features
static void smallTypes(HDef& D){ serTypes(D); using namespace uima::internal; ll::TypeSystem& ts=D.ts(); ll::TyFSType n=D.type(ts.getTopType(),"q.p.N"); (void)n; ll::TyFSType m=D.type(ts.getTopType(),"r.p.N"); ts.createFeature(m,gs_tyFSArrayType,true,US("mar"),US("h")); ll::TyFSType w=D.type(gs_tyAnnotationType,"x.axmi.W"); D.feat(w,ts.getTopType(),"wr"); }
static void setupShared(){ xercesc::XMLPlatformUtils::Initialize(); hSetup(s04Types,serIdx); bas_=g_cas; g_small=new HDef(); g_small->ty=smallTypes; g_small->ix=serIdx; g_small->init(); g_small->commit(); }
static void setup(){ xercesc::XMLPlatformUtils::Initialize(); hSetup(s04Types,serIdx); bas_=g_cas; }
#ifdef RT_XCAS
static const bool XC=true;
static std::string text(CAS* c){ std::ostringstream o; XCASWriter w(*c,true); w.write(o); return o.str(); }
static void read(xercesc::MemBufInputSource* s,CAS* c){ XCASDeserializer::deserialize(*s,*c); }
#else
static const bool XC=false;
static std::string text(CAS* c){ std::ostringstream o; XmiWriter w(*c,true); w.write(o); return o.str(); }
static void read(xercesc::MemBufInputSource* s,CAS* c){ XmiDeserializer::deserialize(*s,*c); }
#endif
static void same_(CAS* a,CAS* b,const char* what){ bagOrder_=false; dump(da_,a); dump(db_,b); if(SHOWF){ for(int k=0;k<da_.n||k<db_.n;++k) fprintf(SHOWF,"%d: %llx %llx\n",k,(unsigned long long)da_.v[k],(unsigned long long)db_.v[k]); fflush(SHOWF); } same(da_,db_,what); }
static void rt(){ std::string s=text(g_cas); if(SHOWF){ fprintf(SHOWF,"%s\n",s.c_str()); fflush(SHOWF); } CAS* t=hCreate(g_def); xercesc::MemBufInputSource* src=xSource(s); bool ok=!throwsUima([&]{ read(src,t); }); SX_ASSERT(ok,"the document can be read"); if(ok) same_(g_cas,t,"the CAS read equals the CAS written"); }
static void begin(){ nall_=0; } static void end(const char* l){ root(); rt(); symx_reached(l); }
// a character that XML can represent: two units for the supplementary planes
static int legal(const char* n,char16_t* p){ uint16_t u=sx_unit(n); symx_assume(((unsigned)(u>=0x20)|(unsigned)(u==9)|(unsigned)(u==10)|(unsigned)(u==13))&(unsigned)(u<0xfffe)&(unsigned)((u&0xfc00)!=0xdc00)); p[0]=u; if((u&0xfc00)!=0xd800) return 1; uint16_t v=sx_u16(nm(n,1,"low")); symx_assume((v&0xfc00)==0xdc00); symx_assume((unsigned)((v&0x3fe)!=0x3fe)|(unsigned)((u&0x3f)!=0x3f)); p[1]=v; return 2; }
static UnicodeStringRef str(const char* n,char16_t* q,int max,int min=0){ int k=min+sx_choose(nm(n,0,"len"),max+1-min),m=0; for(int i=0;i<k;++i) m+=legal(nm(n,i),q+m); return UnicodeStringRef((UChar*)q,(size_t)m); }
static const uint64_t DV[]={0,0x8000000000000000ull,0x3fb999999999999aull,0x3fd5555555555555ull,0x7fefffffffffffffull,1,0x0010000000000000ull,0xc1e65a0bc0000001ull,0x41dfffffffc00000ull,0x7ff0000000000000ull,0xfff0000000000000ull,0x4340000000000001ull,0x7ff8000000000000ull}; static const int NDV=13;
static const uint32_t FV[]={0,0x80000000u,0x3dcccccdu,0x3eaaaaabu,0x7f7fffffu,1,0x00800000u,0xc73614ebu,0x4effffffu,0x7f800000u,0xff800000u,0x4b800001u,0x7fc00000u};
static void vals(FeatureStructure x,int w){ x.setIntValue(hF(i),sx_i32(nm("i",w))); x.setShortValue(hF(h),(short)sx_u16(nm("h",w))); x.setLongValue(hF(l),(INT64)sx_u64(nm("l",w))); x.setBooleanValue(hF(b),sx_bool(nm("b",w))); }
SYMX_SCENARIO_SETUP(values,setup){ begin(); FeatureStructure x=keep(g_cas->createFS(hT(sx_choose("t",2)?A:K_))); vals(x,0); end("values"); }
SYMX_SCENARIO_SETUP(floats,setup){ begin(); FeatureStructure x=keep(g_cas->createFS(hT(A))); int k=sx_choose("d",NDV); x.setDoubleValue(hF(d),dfrom(DV[k])); x.setFloatValue(hF(f),ffrom(FV[k])); end("floats"); }
SYMX_SCENARIO_SETUP(bytes,setup){ begin(); FeatureStructure x=keep(g_cas->createFS(hT(A))); x.setByteValue(hF(y),(char)sx_u8("y")); end("bytes"); }
SYMX_SCENARIO_SETUP(strings,setup){ begin(); FeatureStructure x=keep(g_cas->createFS(hT(A))); char16_t q[6]; if(sx_choose("null",2)==0) x.setStringValue(hF(s),str("s",q,symx_thorough()?3:2)); int e=sx_choose("sub",3); if(e) x.setStringValue(hF(sub),UnicodeStringRef((UChar*)(e==1?u"ab":u"abd"),(size_t)(e==1?2:3))); end("strings"); }
SYMX_SCENARIO_SETUP(document,setup){ begin(); char16_t q[6]; viewNo(sx_choose("view",2))->setDocumentText(str("s",q,symx_thorough()?3:2)); end("document"); }
static UnicodeStringRef fixed(const char* n){ static const char16_t* T[]={u"",u"a b",u"<&\"\n"}; static const int N[]={0,3,4}; int k=sx_choose(n,3); return UnicodeStringRef((UChar*)T[k],(size_t)N[k]); }
static FeatureStructure mkArr(int k,int n,char16_t* q,bool self){ CAS* c=g_cas; switch(k){
  case 0: { IntArrayFS a=c->createIntArrayFS(n); for(int j=0;j<n;++j) a.set(j,sx_i32(nm("v",j))); return a; }
  case 1: { FloatArrayFS a=c->createFloatArrayFS(n); for(int j=0;j<n;++j) a.set(j,ffrom(FV[sx_choose(nm("v",j),NDV)])); return a; }
  case 2: { StringArrayFS a=c->createStringArrayFS(n); for(int j=0;j<n;++j) a.set(j,j?fixed(nm("w",j)):str(nm("v",j,"s"),q+4*j,symx_thorough()?2:1)); return a; }
  case 3: { BooleanArrayFS a=c->createBooleanArrayFS(n); for(int j=0;j<n;++j) a.set(j,sx_bool(nm("v",j))); return a; }
  case 4: { static const char Y[]={0,1,10,65,127,-128,-1}; ByteArrayFS a=c->createByteArrayFS(n); for(int j=0;j<n;++j) a.set(j,Y[sx_choose(nm("v",j),7)]); return a; }
  case 5: { ShortArrayFS a=c->createShortArrayFS(n); for(int j=0;j<n;++j) a.set(j,(short)sx_u16(nm("v",j))); return a; }
  case 6: { LongArrayFS a=c->createLongArrayFS(n); for(int j=0;j<n;++j) a.set(j,(INT64)sx_u64(nm("v",j))); return a; }
  case 7: { DoubleArrayFS a=c->createDoubleArrayFS(n); for(int j=0;j<n;++j) a.set(j,dfrom(DV[sx_choose(nm("v",j),NDV)])); return a; }
  case 8: { ArrayFS a=c->createArrayFS(n); FeatureStructure e=c->createFS(hT(Q_)); for(int j=0;j<n;++j){ int z=sx_choose(nm("v",j),3); if(z) a.set(j,z==1&&self?(FeatureStructure)a:e); } return a; } }
  return FeatureStructure(); }
static ll::TyFSFeature E_[9]; static ll::TyFSFeature* MU_[13]={&mai,&maf,&mas,&mab,&may,&mah,&mal,&mad,&mar,&mli,&mlf,&mls,&mlr};
// place: 0 only in the root, 1 embedded in a feature, 2 in a feature with multiple references, 3 shared by two such features
static void place(FeatureStructure v,int k,int p,bool also){ ll::TyFSFeature em[13]={ai,af,as,ab,ay,ah,al,ad,ar,li,lf,ls,lr}; if(p==1){ FeatureStructure x=keep(g_cas->createFS(hT(k<9?A:N_))); x.setFSValue(hF(em[k]),v); } else if(p>=2) for(int j=0;j<p-1;++j){ FeatureStructure x=keep(g_cas->createFS(hT(M_))); x.setFSValue(hF(*MU_[k]),v); } if(p==0||also) keep(v); }
static void arrays(int lo,int hi){ begin(); char16_t q[12]; int k=lo+sx_choose("kind",hi-lo),n=sx_choose("size",3),p=sx_choose("place",4); place(mkArr(k,n,q,XC||p!=1),k,p,false); end("arrays"); }
SYMX_SCENARIO_SETUP(arrays_num,setup){ arrays(3,9); }
SYMX_SCENARIO_SETUP(arrays_flt,setup){ arrays(0,2); }
SYMX_SCENARIO_SETUP(arrays_str,setup){ arrays(2,3); }
static FeatureStructure mkList(int k,int n,char16_t* q){ CAS* c=g_cas; switch(k){
  case 9: { IntListFS a=c->createIntListFS(); for(int j=0;j<n;++j) a.addLast(sx_i32(nm("v",j))); return a; }
  case 10: { FloatListFS a=c->createFloatListFS(); for(int j=0;j<n;++j) a.addLast(ffrom(FV[sx_choose(nm("v",j),NDV)])); return a; }
  case 11: { StringListFS a=c->createStringListFS(); for(int j=0;j<n;++j) a.addLast(j?fixed(nm("w",j)):str(nm("v",j,"s"),q+4*j,1)); return a; }
  case 12: { ListFS a=c->createListFS(); FeatureStructure e=c->createFS(hT(Q_)); for(int j=0;j<n;++j){ int z=sx_choose(nm("v",j),3); a.addLast(z==0?FeatureStructure():z==1?(FeatureStructure)c->createIntListFS():e); } return a; } }
  return FeatureStructure(); }
SYMX_SCENARIO_SETUP(lists,setup){ begin(); char16_t q[12]; int k=9+sx_choose("kind",4),n=sx_choose("size",3),p=sx_choose("place",4); place(mkList(k,n,q),k,p,false); end("lists"); }

// references between three structures of types in different namespaces; only some are listed in the root
static void names(int nt){ static const int G[5]={0,2,3,5,6}; begin(); ll::TyFSType T[8]={Q_,ST_,W_,A,AX_,XT_,NN_,N_}; ll::TyFSFeature R[8]={qr,tr,wr,r,xr,yr,nr,lr}; FeatureStructure x[3]; int t[3]; for(int j=0;j<3;++j){ t[j]=G[sx_choose(nm("t",j),nt)]; if(t[j]==2) x[j]=g_cas->createAnnotation(hT(W_),j,5+j); else x[j]=g_cas->createFS(hT(T[t[j]])); if(t[j]==7) x[j].setStringValue(hF(ns_),US("n")); }
  for(int j=0;j<3;++j){ int k=sx_choose(nm("r",j),4); if(k&&t[j]!=7) x[j].setFSValue(hF(R[t[j]]),x[k-1]); } int m=sx_choose("roots",4); keep(x[0]); if(m&1) keep(x[1]); if(m&2) keep(x[2]); if(sx_choose("idx",2)&&t[2]==2) g_cas->getIndexRepository().addFS(x[2]); end("names"); }
SYMX_SCENARIO_SETUP(graph,setup){ names(symx_thorough()?5:2); }
#ifndef RT_XCAS
SYMX_SCENARIO_SETUP(namespaces,setup){ begin(); ll::TyFSType T[9]={Q_,ST_,W_,A,AX_,XT_,NN_,N_,M_}; unsigned m=(unsigned)sx_range("types",1,511); m=symx_pin(m); if(!symx_thorough()) symx_assume((m&128)==0); for(int j=0;j<9;++j) if(m>>j&1){ if(j==2) keep(g_cas->createAnnotation(hT(W_),0,1)); else keep(g_cas->createFS(hT(T[j]))); } end("namespaces"); }
#endif
// two further views with any kind of Sofa; structures indexed in any of the views
static void fillView(int v){ CAS* c=viewNo(v); switch(sx_choose(nm("sofa",v),5)){ case 0: break; case 1: c->setDocumentText(UnicodeStringRef((UChar*)u"x<y",3)); break; case 2: c->setSofaDataURI(US("file:a&b"),US("t/x")); break; case 3: { ByteArrayFS a=c->createByteArrayFS(2); a.set(0,1); a.set(1,-1); c->setSofaDataArray(a,US("bin")); break; } case 4: c->setDocumentText(UnicodeStringRef((UChar*)u"",(size_t)0)); break; } }
SYMX_SCENARIO_SETUP(views,setup){ begin(); int n=sx_choose("views",3); int lo=symx_thorough()||n<2?0:1; bool back=n&&sx_choose("order",2); if(back) for(int v=n;v>=lo;--v) fillView(v); else for(int v=lo;v<=n;++v) fillView(v); FeatureStructure x=keep(g_cas->createFS(hT(K_))); x.setIntValue(hF(ki_),7); for(int v=0;v<=n;++v) if(sx_choose(nm("in",v),2)) viewNo(v)->getIndexRepository().addFS(x); end("views"); }
SYMX_SCENARIO_SETUP(many_views,setup){ begin(); int n=sx_choose("views",2)?100:9; FeatureStructure x=keep(g_cas->createFS(hT(K_))); CAS* c[100]; for(int v=0;v<n;++v){ char b[8]; sprintf(b,"v%d",v); c[v]=g_cas->createView(US(b)); c[v]->getIndexRepository().addFS(x); } root(); std::string s=text(g_cas); CAS* t=hCreate(g_def); xercesc::MemBufInputSource* src=xSource(s); bool ok=!throwsUima([&]{ read(src,t); }); SX_ASSERT(ok,"the document can be read"); if(ok) for(int v=0;v<n;++v){ char b[8]; sprintf(b,"v%d",v); CAS* w=0; bool no=throwsUima([&]{ w=t->getView(US(b)); }); SX_ASSERT(!no&&w->getIndexRepository().getIndex(US("int")).getSize()==1,"the structure is in the index of every view"); } symx_reached("many_views"); }
SYMX_SCENARIO_SETUP(annotations,setup){ begin(); int n=1+sx_choose("views",2); bool tx=sx_choose("text",2); if(tx) viewNo(0)->setDocumentText(UnicodeStringRef((UChar*)u"abcdef",6)); if(n>1&&sx_choose("text1",2)) viewNo(1)->setDocumentText(UnicodeStringRef((UChar*)u"ghi",3)); int k=1+sx_choose("n",2); for(int j=0;j<k;++j){ static const int B[]={0,2,2},E[]={6,3,2}; int w=sx_choose(nm("in",j),n),p=sx_choose(nm("at",j),3); ll::TyFSType T[3]={X,Y,W_}; AnnotationFS a=viewNo(w)->createAnnotation(hT(T[sx_choose(nm("ty",j),3)]),B[p],E[p]); if(sx_choose(nm("ix",j),2)) viewNo(w)->getIndexRepository().addFS(a); keep(a); } end("annotations"); }
SYMX_SCENARIO_SETUP(language,setup){ begin(); static const char* L[]={"x-unspecified","de","en-US","zh-CN"}; int v=sx_choose("view",2); CAS* t=viewNo(v); t->setDocumentText(UnicodeStringRef((UChar*)u"abc",3)); int k=sx_choose("lang",5); if(k<4){ DocumentFS q=t->getDocumentAnnotation(); q.setLanguage(Language(L[k])); if(sx_choose("re",2)){ t->getIndexRepository().removeFS(q); t->getIndexRepository().addFS(q); } } else t->getIndexRepository().removeFS(t->getDocumentAnnotation()); end("language"); }

#ifndef RT_XCAS
// a service whose type system lacks types and features passes them on unchanged
static void pass(const char* l){ root(); std::string s=text(g_cas); CAS* m=hCreate(g_small); XmiSerializationSharedData sd; xercesc::MemBufInputSource* src=xSource(s); bool ok=!throwsUima([&]{ XmiDeserializer::deserialize(*src,*m,sd); }); SX_ASSERT(ok,"the document can be read leniently"); if(!ok) return; std::ostringstream o; XmiWriter w(*m,true,&sd); w.write(o); std::string s2=o.str(); if(SHOWF){ fprintf(SHOWF,"%s\n%s\n",s.c_str(),s2.c_str()); fflush(SHOWF); }
  CAS* t=hCreate(g_def); xercesc::MemBufInputSource* src2=xSource(s2); ok=!throwsUima([&]{ XmiDeserializer::deserialize(*src2,*t); }); SX_ASSERT(ok,"the document passed on can be read"); if(ok) same_(g_cas,t,"what the service does not know is passed on"); symx_reached(l); }
SYMX_SCENARIO_SETUP(shared,setupShared){ begin(); char16_t q[6]; FeatureStructure p=g_cas->createFS(hT(Q_)),x=g_cas->createFS(hT(N_)); x.setStringValue(hF(ns_),str("s",q,1)); FeatureStructure a=g_cas->createFS(hT(A)); a.setIntValue(hF(i),sx_i32("i")); FeatureStructure z[3]={a,p,x}; int k=sx_choose("pr",4); if(k) p.setFSValue(hF(qr),z[k-1]); k=sx_choose("ar",4); if(k) a.setFSValue(hF(r),z[k-1]); ArrayFS e=g_cas->createArrayFS(2); e.set(0,sx_choose("e0",2)?p:FeatureStructure()); e.set(1,sx_choose("e1",2)?a:p); if(sx_choose("mar",2)){ FeatureStructure m=keep(g_cas->createFS(hT(M_))); m.setFSValue(hF(mar),e); } else keep(e); if(sx_choose("keepp",2)) keep(p); keep(a); keep(x); pass("shared"); }
SYMX_SCENARIO_SETUP(shared_views,setupShared){ begin(); int n=sx_choose("views",2); FeatureStructure w=g_cas->createFS(hT(K_)); w.setIntValue(hF(ki_),3); if(n) viewNo(1)->setDocumentText(UnicodeStringRef((UChar*)u"a b",3)); if(sx_choose("text",2)) g_cas->setDocumentText(UnicodeStringRef((UChar*)u"cd",2)); for(int v=0;v<=n;++v){ if(sx_choose(nm("in",v),2)) viewNo(v)->getIndexRepository().addFS(w); if(sx_choose(nm("an",v),2)){ AnnotationFS b=viewNo(v)->createAnnotation(hT(W_),0,1); b.setFSValue(hF(wr),w); viewNo(v)->getIndexRepository().addFS(b); } } FeatureStructure y=keep(g_cas->createFS(hT(N_))); ll::TyFSFeature F[4]={li,lf,ls,lr}; int f=sx_choose("list",5); static const int32_t V[2]={-1,70000}; if(f==1){ IntListFS l=g_cas->createIntListFS(); l.addLast(V[0]); l.addLast(V[1]); y.setFSValue(hF(li),l); } else if(f==3){ StringListFS l=g_cas->createStringListFS(); l.addLast(UnicodeStringRef((UChar*)u"a<",2)); l.addLast(UnicodeStringRef((UChar*)u"\"b",2)); y.setFSValue(hF(ls),l); } else if(f==4){ ListFS l=g_cas->createListFS(); l.addLast(w); y.setFSValue(hF(lr),l); } (void)F; keep(w); pass("shared_views"); }
#endif
SYMX_SCENARIO_SETUP(used,setup){ begin(); char16_t q[6]; viewNo(sx_choose("v",3))->setDocumentText(str("s",q,1)); vals(keep(g_cas->createFS(hT(A))),0); root(); std::string s=text(g_cas); CAS* t=hCreate(g_def); int u=sx_choose("had",4); CAS* tv=u==0?t:t->createView(US(u==1?"a":u==2?"b":"x")); tv->setDocumentText(UnicodeStringRef((UChar*)u"previous",8)); tv->createAnnotation(hT(W_),0,1); xercesc::MemBufInputSource* src=xSource(s); t->reset(); bool ok=!throwsUima([&]{ read(src,t); }); SX_ASSERT(ok,"the document can be read"); if(ok) same_(g_cas,t,"nothing of the previous content remains"); symx_reached("used"); }
SYMX_SCENARIO_SETUP(larger,setup){ begin(); bigXml_=true; bigFill(sx_choose("size",2)*17); std::string s=text(g_cas); CAS* t=hCreate(g_def); xercesc::MemBufInputSource* src=xSource(s); bool ok=!throwsUima([&]{ read(src,t); }); SX_ASSERT(ok,"the larger document can be read"); if(ok){ bigDump(0,g_cas); bigDump(1,t); bigSame("the larger CAS read equals the one written"); } symx_reached("larger"); }
// longer arrays and lists in every placement, one element arbitrary
static FeatureStructure bigArr(int k,int n,int at){ CAS* c=g_cas; uint64_t q=sx_u64("q"); static const char16_t W[]=u"ab <&>\"'xyz\n\t;"; char16_t u[2]={sx_unit("u"),0}; symx_assume((unsigned)(u[0]>=0x20)&(unsigned)(u[0]<0xd800));
  switch(k){ case 0: { IntArrayFS a=c->createIntArrayFS(n); for(int j=0;j<n;++j) a.set(j,j==at?(int)q:j*j*7-9); return a; }
  case 1: { FloatArrayFS a=c->createFloatArrayFS(n); for(int j=0;j<n;++j) a.set(j,j*0.375f-3); return a; }
  case 2: { StringArrayFS a=c->createStringArrayFS(n); for(int j=0;j<n;++j) a.set(j,j==at?UnicodeStringRef((UChar*)u,1):UnicodeStringRef((UChar*)W,(size_t)(j%14))); return a; }
  case 3: { BooleanArrayFS a=c->createBooleanArrayFS(n); for(int j=0;j<n;++j) a.set(j,j==at?(bool)(q&1):j%3==1); return a; }
  case 4: { ByteArrayFS a=c->createByteArrayFS(n); for(int j=0;j<n;++j) a.set(j,(char)(j*7)); return a; }
  case 5: { ShortArrayFS a=c->createShortArrayFS(n); for(int j=0;j<n;++j) a.set(j,(short)(j==at?q:j*997)); return a; }
  case 6: { LongArrayFS a=c->createLongArrayFS(n); for(int j=0;j<n;++j) a.set(j,(INT64)(j==at?q:(uint64_t)j<<33)); return a; }
  case 7: { DoubleArrayFS a=c->createDoubleArrayFS(n); for(int j=0;j<n;++j) a.set(j,j/7.0); return a; }
  case 8: { ArrayFS a=c->createArrayFS(n); FeatureStructure e[3]={c->createFS(hT(Q_)),c->createFS(hT(Q_)),c->createFS(hT(ST_))}; for(int j=0;j<n;++j) if(j%4) a.set(j,e[j%4-1]); return a; }
  case 9: { IntListFS a=c->createIntListFS(); for(int j=0;j<n;++j) a.addLast(j==at?(int)q:j*j*7-9); return a; }
  case 10: { FloatListFS a=c->createFloatListFS(); for(int j=0;j<n;++j) a.addLast(j*0.375f-3); return a; }
  case 11: { StringListFS a=c->createStringListFS(); for(int j=0;j<n;++j) a.addLast(j==at?UnicodeStringRef((UChar*)u,1):UnicodeStringRef((UChar*)W,(size_t)(j%14))); return a; }
  default: { ListFS a=c->createListFS(); FeatureStructure e[3]={c->createFS(hT(Q_)),c->createFS(hT(Q_)),c->createFS(hT(ST_))}; for(int j=0;j<n;++j) a.addLast(j%4?e[j%4-1]:FeatureStructure()); return a; } } }
SYMX_SCENARIO_SETUP(larger_parts,setup){ begin(); int k=sx_choose("kind",13),n=k<9?(sx_choose("n",2)?100:33):30,at=sx_choose("at",2)?n-1:n/2; FeatureStructure v=bigArr(k,n,at); place(v,k,sx_choose("place",4),false); root(); std::string s=text(g_cas); CAS* t=hCreate(g_def); xercesc::MemBufInputSource* src=xSource(s); bool ok=!throwsUima([&]{ read(src,t); }); SX_ASSERT(ok,"the document can be read"); if(ok) same_(g_cas,t,"longer arrays and lists survive"); symx_reached("larger_parts"); }
