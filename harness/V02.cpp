// V02: document text is stored once and covered text is its exact slice.
// BOUND: texts of 0..3 (thorough: 5) units over all code units, set through every way of setting a text in the initial or a created view, replaced by a second text of 0..2 (thorough: 3) units with annotations of any begin and end indexed before; covered texts of every annotation with begin<=end<=length of non-empty texts of 1..4 (thorough 6) units in two views with different texts; a text taken from the CAS itself (document text, feature value at a heap boundary); every well-formed language stored in the document annotation
// BOUND: texts of 12 lengths from 15 to 4097 units (one of three units any value), set in three ways, covered texts in them, replaced by a part
// OUTSIDE: texts of other lengths; U+0000 in texts (known finding of C04); covered text of an empty document (refused)
#include "cascommon.hpp"
static ll::TyFSType X_,S_; static ll::TyFSFeature s_;
static void types(HDef& D){ using namespace uima::internal; X_=D.type(gs_tyAnnotationType,"D.X"); S_=D.type(D.ts().getTopType(),"D.S"); s_=D.feat(S_,gs_tyStringType,"s"); }
static void setup(){ hSetup(types,[](HDef&){}); }
struct T_ { char16_t u[8]; int n; int firstNul; };
static bool nul_=false;
static T_ text(const char* p,int max,int min=0){ T_ t; memset(&t,0,sizeof t); t.n=min+sx_choose(nm(p,0,"n"),max+1-min); for(int i=0;i<t.n;++i) t.u[i]=sx_unit(nm(p,i,"u")); return t; }
static void put(CAS* c,T_& t,int way){ UnicodeStringRef r((UChar*)t.u,t.n); switch(way){ case 0: c->setDocumentText(r); break; case 1: c->setSofaDataString(r,US("text")); break; case 2: c->setDocumentText((UChar*)t.u,t.n,true); break; case 3: c->setDocumentText((UChar*)t.u,t.n,false); break; } }
static int countDoc(CAS* c){ int n=0; ANIterator it=c->getAnnotationIndex().iterator(); for(it.moveToFirst();it.isValid();it.moveToNext()) n+=hA(it.get())==hA(c->getDocumentAnnotation()); return n; }
static void check(CAS* c,T_& t,bool replaced){ SX_ASSERT(eqU(c->getDocumentText(),t.u,t.n),"the text is the one set"); SX_ASSERT(c->getSofa().isValid()&&eqU(c->getSofa().getLocalStringData(),t.u,t.n),"the Sofa holds the text"); if(t.n||replaced){ DocumentFS d=c->getDocumentAnnotation(); SX_ASSERT(d.getBeginPosition()==0&&(int)d.getEndPosition()==t.n,"the document annotation spans the text"); SX_ASSERT(countDoc(c)==1,"the document annotation is indexed once"); SX_ASSERT(hA(d)==hA(c->getAnnotationIndex(c->getTypeSystem().getType(US(CAS::TYPE_NAME_DOCUMENT_ANNOTATION))).iterator().get()),"the document annotation is found by type"); if(t.n) SX_ASSERT(eqU(d.getCoveredText(),t.u,t.n),"the document annotation covers the text"); } }
static CAS* view(const char* p){ return sx_choose(p,2)?g_cas->createView(US("v")):g_cas; }
SYMX_SCENARIO_SETUP(set,setup){ CAS* c=view("view"); T_ t=text("t",symx_thorough()?5:3); T_ copy=t; int way=sx_choose("way",4); put(c,copy,way); memset(&copy,0,sizeof copy); check(c,t,false); g_cas->createView(US("w"))->setDocumentText(UnicodeStringRef((UChar*)u"other",5)); check(c,t,false); symx_reached("set"); }
SYMX_SCENARIO_SETUP(replace,setup){ CAS* c=view("view"); int max=symx_thorough()?3:2; T_ t=text("t",max); put(c,t,0); bool had=t.n>0; int m=symx_thorough()?2:1; AnnotationFS a[2]; for(int i=0;i<m;++i){ a[i]=c->createAnnotation(hT(X_),sx_u8(nm("b",i)),sx_u8(nm("e",i))); c->getIndexRepository().addFS(a[i]); } if(sx_choose("iter",2)){ countDoc(c); had=true; } T_ r=text("r",max); put(c,r,sx_choose("way",4)); check(c,r,had||r.n); for(int i=0;i<m;++i){ int n=0; ANIterator it=c->getAnnotationIndex().iterator(); for(it.moveToFirst();it.isValid();it.moveToNext()) n+=hA(it.get())==hA(a[i]); SX_ASSERT(n==1,"other annotations stay"); } ANIndex x=c->getAnnotationIndex(); SX_ASSERT((int)x.getSize()==m+((had||r.n)?1:0),"size of the annotation index"); ANIterator it=x.iterator(); uint32_t pb=0,pe=0; bool first=true; for(it.moveToFirst();it.isValid();it.moveToNext()){ uint32_t b=it.get().getBeginPosition(),e=it.get().getEndPosition(); if(!first) SX_ASSERT((pb<b)|((pb==b)&(pe>=e)),"the annotation index stays in order"); first=false; pb=b; pe=e; } symx_reached("replaced"); }
SYMX_SCENARIO_SETUP(covered,setup){ T_ t=text("t",symx_thorough()?6:4,1),w=text("w",2,1); put(g_cas,t,0); CAS* v=g_cas->createView(US("v")); put(v,w,0); bool in=sx_choose("in",2); CAS* c=in?v:g_cas; T_& x=in?w:t; uint32_t b=sx_range("b",0,7),e=sx_range("e",0,7); symx_assume(b<=e&&e<=(uint32_t)x.n); AnnotationFS a=c->createAnnotation(hT(X_),b,e); int other=sx_choose("grow",2); if(other) for(int i=0;i<40;++i) g_cas->createAnnotation(hT(X_),i,i); SX_ASSERT(a.getBeginPosition()==b&&a.getEndPosition()==e,"begin and end"); UnicodeStringRef r=a.getCoveredText(); SX_ASSERT(r.length()==e-b,"length of the covered text"); int bb=(int)symx_pin(b),ee=(int)symx_pin(e); SX_ASSERT(eqU(r,x.u+bb,ee-bb),"the covered text is the slice"); c->getIndexRepository().addFS(a); ANIterator it=c->getAnnotationIndex(hT(X_)).iterator(); SX_ASSERT(it.isValid()&&eqU(it.get().getCoveredText(),x.u+bb,ee-bb),"the covered text of the indexed annotation"); symx_reached("covered"); }
// the text comes from the CAS
SYMX_SCENARIO_SETUP(own,setup){ CAS* c=(new uima::internal::CASImpl(*g_def,500,8+sx_choose("cap",symx_thorough()?60:30),20))->getInitialView(); g_cas=c; c=view("view"); T_ t=text("t",2,1); int how=sx_choose("how",2); if(how==0){ put(c,t,0); c->setDocumentText(c->getDocumentText()); } else { FeatureStructure f=c->createFS(hT(S_)); f.setStringValue(hF(s_),UnicodeStringRef((UChar*)t.u,t.n)); c->setDocumentText(f.getStringValue(hF(s_))); } check(c,t,false); symx_reached("own"); }
SYMX_SCENARIO_SETUP(language,setup){ CAS* c=view("view"); if(sx_choose("text",2)) c->setDocumentText(UnicodeStringRef((UChar*)u"abc",3)); char16_t q[5]; q[0]=sx_u8("l0"); q[1]=sx_u8("l1"); q[2]='-'; q[3]=sx_u8("t0"); q[4]=sx_u8("t1"); for(int i=0;i<5;++i) if(i!=2) symx_assume(q[i]>='a'&&q[i]<='z'); int n=sx_choose("terr",2)?5:2; Language l(UnicodeStringRef((UChar*)q,n)); symx_assume(l.isValid()); DocumentFS d=c->getDocumentAnnotation(); SX_ASSERT(d.getLanguage().asNumber()==Language().asNumber(),"no language at first"); d.setLanguage(l); SX_ASSERT(c->getDocumentAnnotation().getLanguage().asNumber()==l.asNumber(),"the document keeps its language"); symx_reached("language"); }
// longer texts
SYMX_SCENARIO_SETUP(longer,setup){ static const int LEN[]={15,16,17,31,63,64,65,255,256,257,1000,4097}; int n=LEN[sx_choose("n",12)]; CAS* c=view("view"); static UChar u[4200],w[4200]; int at=sx_choose("at",3); at=at==0?0:at==1?n/2:n-1; for(int i=0;i<n;++i) u[i]=w[i]=(UChar)(0x21+i*11%93); u[at]=w[at]=(UChar)sx_unit("u"); AnnotationFS a=c->createAnnotation(hT(X_),at,at+1); c->getIndexRepository().addFS(a); int way=sx_choose("way",3); if(way==0) c->setDocumentText(UnicodeStringRef(w,n)); else if(way==1) c->setSofaDataString(UnicodeStringRef(w,n),US("text")); else c->setDocumentText(w,n,true); for(int i=0;i<n;++i) w[i]=0x2603; SX_ASSERT(eqU(c->getDocumentText(),(char16_t*)u,n)&&eqU(c->getSofa().getLocalStringData(),(char16_t*)u,n),"a long text is kept whole"); DocumentFS d=c->getDocumentAnnotation(); SX_ASSERT(d.getBeginPosition()==0&&(int)d.getEndPosition()==n&&eqU(d.getCoveredText(),(char16_t*)u,n),"the document annotation spans it"); SX_ASSERT(eqU(a.getCoveredText(),(char16_t*)u+at,1),"covered text in a long text"); AnnotationFS f=c->createAnnotation(hT(X_),1,n-1); SX_ASSERT(eqU(f.getCoveredText(),(char16_t*)u+1,n-2),"nearly all of it"); static const int RL[]={1,300}; int r=RL[sx_choose("rn",2)]; c->setDocumentText(UnicodeStringRef(u+n-(r<n?r:n),r<n?r:n)); r=r<n?r:n; SX_ASSERT(eqU(c->getDocumentText(),(char16_t*)u+n-r,r)&&(int)c->getDocumentAnnotation().getEndPosition()==r&&countDoc(c)==1&&(int)c->getAnnotationIndex().getSize()==2,"replaced by part of it"); symx_reached("longer"); }
