// C05: accesses that violate the type system.
// BOUND: feature structures of six types (TOP, A, B<A, C<A, D<B, an annotation type) plus an invalid one; 32 features with every range (all primitives, string, restricted string, every array, lists, array base, TOP, A, B, D) plus an invalid one; every reading accessor (9 value kinds, 9 arrays, 4 lists, untouched, has-elements) and every writing accessor with symbolic values, or with references of 19 kinds (every structure type, every array and list type, unset and default-constructed references); afterwards every value of every structure is compared with before
// OUTSIDE: array types with a declared element type (the C++ API cannot create them); other type hierarchies (C07 decides subsumption and feature inheritance for those)
#include "cascommon.hpp"
using namespace full;
enum { ptr_,KI,KF,KS,KB,KY,KH,KL,KD,KSUB };
static ll::TyFSFeature lf,li_,lfl,ls_,arrb,nx;
struct FD { const char* n; ll::TyFSFeature f; ll::TyFSType dom,range; int kind; }; static FD fd[48]; static int nfd;
static void add(const char* n,ll::TyFSFeature f,ll::TyFSType dom,ll::TyFSType range,int kind){ fd[nfd].n=n; fd[nfd].f=f; fd[nfd].dom=dom; fd[nfd].range=range; fd[nfd].kind=kind; ++nfd; }
static ll::TyFSType par[512];
static void ty(HDef& D_){ using namespace uima::internal; types(D_); ll::TypeSystem& ts=D_.ts(); nfd=0;
  lf=D_.feat(A,gs_tyFSListType,"lf"); li_=D_.feat(B,gs_tyIntListType,"li"); lfl=D_.feat(C,gs_tyFloatListType,"lfl"); ls_=D_.feat(A,gs_tyStringListType,"ls"); arrb=D_.feat(B,gs_tyArrayBaseType,"arrb"); nx=D_.feat(D,D,"nx");
  add("i",i,A,gs_tyIntegerType,KI); add("f",f,A,gs_tyFloatType,KF); add("s",s,A,gs_tyStringType,KS); add("b",b,A,gs_tyBooleanType,KB); add("y",y,A,gs_tyByteType,KY); add("h",h,A,gs_tyShortType,KH); add("l",l,A,gs_tyLongType,KL); add("d",d,A,gs_tyDoubleType,KD); add("sub",sub,A,Color,KSUB);
  add("r",r,A,ts.getTopType(),0); add("ra",ra,A,A,0); add("rb",rb,A,B,0); add("bi",bi,B,gs_tyIntegerType,KI); add("ci",ci,C,gs_tyIntegerType,KI); add("xi",xi,X,gs_tyIntegerType,KI);
  add("ai",ai,A,gs_tyIntArrayType,0); add("af",af,A,gs_tyFloatArrayType,0); add("as",as,A,gs_tyStringArrayType,0); add("ab",ab,A,gs_tyBooleanArrayType,0); add("ay",ay,A,gs_tyByteArrayType,0); add("ah",ah,A,gs_tyShortArrayType,0); add("al",al,A,gs_tyLongArrayType,0); add("ad",ad,A,gs_tyDoubleArrayType,0); add("ar",ar,A,gs_tyFSArrayType,0);
  add("lf",lf,A,gs_tyFSListType,0); add("li",li_,B,gs_tyIntListType,0); add("lfl",lfl,C,gs_tyFloatListType,0); add("ls",ls_,A,gs_tyStringListType,0); add("arrb",arrb,B,gs_tyArrayBaseType,0); add("nx",nx,D,D,0);
  add("begin",gs_tyBeginPosFeature,gs_tyAnnotationType,gs_tyIntegerType,KI); add("end",gs_tyEndPosFeature,gs_tyAnnotationType,gs_tyIntegerType,KI);
  // the harness's own copy of the hierarchy
  for(int k=0;k<512;++k) par[k]=0; ll::TyFSType top=ts.getTopType(); ll::TyFSType P[][2]={{A,top},{B,A},{C,A},{D,B},{gs_tyAnnotationBaseType,top},{gs_tyAnnotationType,gs_tyAnnotationBaseType},{X,gs_tyAnnotationType},{gs_tyArrayBaseType,top},{gs_tyFSArrayType,gs_tyArrayBaseType},{gs_tyIntArrayType,gs_tyArrayBaseType},{gs_tyFloatArrayType,gs_tyArrayBaseType},{gs_tyStringArrayType,gs_tyArrayBaseType},{gs_tyBooleanArrayType,gs_tyArrayBaseType},{gs_tyByteArrayType,gs_tyArrayBaseType},{gs_tyShortArrayType,gs_tyArrayBaseType},{gs_tyLongArrayType,gs_tyArrayBaseType},{gs_tyDoubleArrayType,gs_tyArrayBaseType},
    {gs_tyListBaseType,top},{gs_tyFSListType,gs_tyListBaseType},{gs_tyEListType,gs_tyFSListType},{gs_tyNEListType,gs_tyFSListType},{gs_tyIntListType,gs_tyListBaseType},{gs_tyEIntListType,gs_tyIntListType},{gs_tyNEIntListType,gs_tyIntListType},{gs_tyFloatListType,gs_tyListBaseType},{gs_tyEFloatListType,gs_tyFloatListType},{gs_tyNEFloatListType,gs_tyFloatListType},{gs_tyStringListType,gs_tyListBaseType},{gs_tyEStringListType,gs_tyStringListType},{gs_tyNEStringListType,gs_tyStringListType}};
  for(auto& e:P) par[e[0]]=e[1]; }
static bool sup(ll::TyFSType a,ll::TyFSType b){ for(;b;b=par[b]) if(a==b) return true; return false; }
static const int NF=6; static FeatureStructure fs[NF+1]; static ll::TyFSType ft[NF+1]; static FeatureStructure val[24]; static ll::TyFSType vt[24]; static int nval;
static void addv(FeatureStructure v,ll::TyFSType t){ val[nval]=v; vt[nval]=t; ++nval; }
static bool has(int k,int j){ return k<NF&&j<nfd&&sup(fd[j].dom,ft[k]); }
static Feature F(int j){ return j<nfd?hF(fd[j].f):Feature(); }
static char16_t ab_[3]={'a','b',0},q1[2]={'q',0};
static uint64_t rd(int k,int j){ FeatureStructure x=fs[k]; Feature g=F(j); switch(fd[j].kind){ case KI: return (uint32_t)x.getIntValue(g); case KF: return fbits(x.getFloatValue(g)); case KS: case KSUB: { UnicodeStringRef r=x.getStringValue(g); return r.getBuffer()==NULL?0x100:r.length(); } case KB: return x.getBooleanValue(g); case KY: return (uint8_t)x.getByteValue(g); case KH: return (uint16_t)x.getShortValue(g); case KL: return (uint64_t)x.getLongValue(g); case KD: return dbits(x.getDoubleValue(g)); default: return (uint64_t)hA(x.getFSValue(g)); } }
static uint64_t snap[NF][48];
static void mk(){ using namespace uima::internal; nval=0; ll::TyFSType t[NF]={g_def->ts().getTopType(),A,B,C,D,X}; for(int k=0;k<NF;++k){ fs[k]=g_cas->createFS(hT(t[k])); ft[k]=t[k]; } fs[NF]=FeatureStructure(); ft[NF]=0;
  for(int k=0;k<NF;++k) addv(fs[k],ft[k]);
  addv(g_cas->createIntArrayFS(1),gs_tyIntArrayType); addv(g_cas->createFloatArrayFS(1),gs_tyFloatArrayType); addv(g_cas->createStringArrayFS(1),gs_tyStringArrayType); addv(g_cas->createBooleanArrayFS(1),gs_tyBooleanArrayType); addv(g_cas->createByteArrayFS(1),gs_tyByteArrayType); addv(g_cas->createShortArrayFS(1),gs_tyShortArrayType); addv(g_cas->createLongArrayFS(1),gs_tyLongArrayType); addv(g_cas->createDoubleArrayFS(1),gs_tyDoubleArrayType); addv(g_cas->createArrayFS(1),gs_tyFSArrayType);
  addv(g_cas->createListFS(),gs_tyEListType); addv(g_cas->createIntListFS().addFirst(1),gs_tyNEIntListType); addv(g_cas->createFloatListFS(),gs_tyEFloatListType); addv(g_cas->createStringListFS(),gs_tyEStringListType);
  // distinguishable contents
  for(int k=0;k<NF;++k) for(int j=0;j<nfd;++j) if(has(k,j)){ int c=1+k*7+j; Feature g=F(j); FeatureStructure x=fs[k]; switch(fd[j].kind){ case KI: x.setIntValue(g,c); break; case KF: x.setFloatValue(g,(float)c); break; case KS: x.setStringValue(g,UnicodeStringRef(q1,1)); break; case KSUB: x.setStringValue(g,UnicodeStringRef(ab_,2)); break; case KB: x.setBooleanValue(g,true); break; case KY: x.setByteValue(g,(char)c); break; case KH: x.setShortValue(g,(short)c); break; case KL: x.setLongValue(g,c); break; case KD: x.setDoubleValue(g,c); break; default: for(int v=0;v<nval;++v) if(sup(fd[j].range,vt[v])){ x.setFSValue(g,val[v]); break; } } }
  for(int k=0;k<NF;++k) for(int j=0;j<nfd;++j) if(has(k,j)) snap[k][j]=rd(k,j); }
static void unchanged(int ek,int ej){ for(int k=0;k<NF;++k) for(int j=0;j<nfd;++j) if(has(k,j)&&!(k==ek&&j==ej)) SX_ASSERT(rd(k,j)==snap[k][j],"no other value changes"); }
static void setup(){ hSetup(ty,nullptr); mk(); }
template<class X> static bool bad(X f){ return throwsUima(f); }
SYMX_SCENARIO_SETUP(reading,setup){ using namespace uima::internal; int k=sx_choose("fs",NF+1),j=sx_choose("feature",nfd+1); bool ok=has(k,j); int kind=j<nfd?fd[j].kind:-1; ll::TyFSType R=j<nfd?fd[j].range:0; Feature g=F(j); FeatureStructure x=fs[k];
  SX_ASSERT(bad([&]{ x.isUntouchedFSValue(g); })==!ok,"isUntouchedFSValue");
  SX_ASSERT(bad([&]{ x.getIntValue(g); })==!(ok&&kind==KI),"getIntValue"); SX_ASSERT(bad([&]{ x.getFloatValue(g); })==!(ok&&kind==KF),"getFloatValue"); SX_ASSERT(bad([&]{ x.getBooleanValue(g); })==!(ok&&kind==KB),"getBooleanValue"); SX_ASSERT(bad([&]{ x.getByteValue(g); })==!(ok&&kind==KY),"getByteValue"); SX_ASSERT(bad([&]{ x.getShortValue(g); })==!(ok&&kind==KH),"getShortValue"); SX_ASSERT(bad([&]{ x.getLongValue(g); })==!(ok&&kind==KL),"getLongValue"); SX_ASSERT(bad([&]{ x.getDoubleValue(g); })==!(ok&&kind==KD),"getDoubleValue");
  SX_ASSERT(bad([&]{ x.getStringValue(g); })==!(ok&&(kind==KS||kind==KSUB)),"getStringValue"); SX_ASSERT(bad([&]{ x.getFSValue(g); })==!(ok&&kind==0),"getFSValue"); SX_ASSERT(bad([&]{ x.getFeatureValue(g); })==!(ok&&kind==0),"getFeatureValue");
  // array and list accessors: the value held must be of that kind
  ll::TyFSType held=0; if(ok&&kind==0) for(int v=0;v<nval;++v) if(snap[k][j]==(uint64_t)hA(val[v])) held=vt[v];
#define ARR(T,GET) SX_ASSERT(bad([&]{ x.GET(g).size(); })==!(ok&&held==T),#GET)
  ARR(gs_tyIntArrayType,getIntArrayFSValue); ARR(gs_tyFloatArrayType,getFloatArrayFSValue); ARR(gs_tyStringArrayType,getStringArrayFSValue); ARR(gs_tyBooleanArrayType,getBooleanArrayFSValue); ARR(gs_tyByteArrayType,getByteArrayFSValue); ARR(gs_tyShortArrayType,getShortArrayFSValue); ARR(gs_tyLongArrayType,getLongArrayFSValue); ARR(gs_tyDoubleArrayType,getDoubleArrayFSValue); ARR(gs_tyFSArrayType,getArrayFSValue);
#define LST(T,GET) SX_ASSERT(bad([&]{ x.GET(g).getLength(); })==!(ok&&held&&sup(T,R)&&sup(T,held)),#GET)
  LST(gs_tyFSListType,getListFSValue); LST(gs_tyIntListType,getIntListFSValue); LST(gs_tyFloatListType,getFloatListFSValue); LST(gs_tyStringListType,getStringListFSValue);
  bool isl=sup(gs_tyFSListType,R)|sup(gs_tyIntListType,R)|sup(gs_tyFloatListType,R)|sup(gs_tyStringListType,R); SX_ASSERT(bad([&]{ x.hasListElements(g); })==!(ok&&isl),"hasListElements");
  symx_reached(ok?"conforming read":"violating read"); unchanged(-1,-1); }
SYMX_SCENARIO_SETUP(writing,setup){ int k=sx_choose("fs",NF+1),j=sx_choose("feature",nfd+1),a=1+sx_choose("accessor",9); bool ok=has(k,j); int kind=j<nfd?fd[j].kind:-1; Feature g=F(j); FeatureStructure x=fs[k]; uint64_t v=sx_u64("v"); bool th=false,conf=ok&&kind==a; uint64_t want=0;
  switch(a){
  case KI: th=bad([&]{ x.setIntValue(g,(int)v); }); want=(uint32_t)v; break; case KF: th=bad([&]{ x.setFloatValue(g,ffrom((uint32_t)v)); }); want=(uint32_t)v; break; case KB: th=bad([&]{ x.setBooleanValue(g,(v&1)!=0); }); want=v&1; break; case KY: th=bad([&]{ x.setByteValue(g,(char)v); }); want=(uint8_t)v; break; case KH: th=bad([&]{ x.setShortValue(g,(short)v); }); want=(uint16_t)v; break; case KL: th=bad([&]{ x.setLongValue(g,(INT64)v); }); want=v; break; case KD: th=bad([&]{ x.setDoubleValue(g,dfrom(v)); }); want=v; break;
  case KS: { char16_t c[2]={'c',0}; th=bad([&]{ x.setStringValue(g,UnicodeStringRef(c,1)); }); want=1; conf=ok&&(kind==KS||kind==KSUB); break; }
  case KSUB: { char16_t c[3]={'q','q','q'}; th=bad([&]{ x.setStringValue(g,UnicodeStringRef(c,3)); }); want=3; conf=ok&&kind==KS; break; } }
  SX_ASSERT(th==!conf,"a write is refused exactly when it violates the type system"); if(conf){ SX_ASSERT(rd(k,j)==want,"value written"); symx_reached("conforming write"); } else symx_reached("violating write"); unchanged(conf?k:-1,conf?j:-1); }
SYMX_SCENARIO_SETUP(references,setup){ int k=sx_choose("fs",NF+1),j=sx_choose("feature",nfd+1),v=sx_choose("value",nval+2); bool ok=has(k,j); int kind=j<nfd?fd[j].kind:-1; Feature g=F(j); FeatureStructure x=fs[k];
  FeatureStructure y= v<nval?val[v]: v==nval?FeatureStructure(): g_cas->createFS(hT(A)).getFSValue(hF(ra)); bool unset=v>=nval; bool conf=ok&&kind==0&&!unset&&sup(fd[j].range,vt[v]);
  bool th=bad([&]{ x.setFSValue(g,y); }); if(unset){ SX_ASSERT(th|(ok&&kind==0),"an unset reference is refused where no reference fits"); if(!th) SX_ASSERT(!x.getFSValue(g).isValid(),"an unset reference unsets"); unchanged(th?-1:k,th?-1:j); symx_reached("unset"); return; }
  SX_ASSERT(th==!conf,"a reference is refused exactly when its type does not fit"); if(conf){ SX_ASSERT(x.getFSValue(g)==y,"reference written"); symx_reached("fits"); } else symx_reached("does not fit"); unchanged(conf?k:-1,conf?j:-1); }
// handles of the wrong kind
SYMX_SCENARIO_SETUP(handles,setup){ using namespace uima::internal; int v=sx_choose("value",nval+1); FeatureStructure y=v<nval?val[v]:FeatureStructure(); ll::TyFSType t=v<nval?vt[v]:0;
#define HA(C,T) SX_ASSERT(bad([&]{ C q(y); q.size(); })==!(t==T),#C)
  HA(IntArrayFS,gs_tyIntArrayType); HA(FloatArrayFS,gs_tyFloatArrayType); HA(StringArrayFS,gs_tyStringArrayType); HA(BooleanArrayFS,gs_tyBooleanArrayType); HA(ByteArrayFS,gs_tyByteArrayType); HA(ShortArrayFS,gs_tyShortArrayType); HA(LongArrayFS,gs_tyLongArrayType); HA(DoubleArrayFS,gs_tyDoubleArrayType); HA(ArrayFS,gs_tyFSArrayType);
#define HL(C,T) SX_ASSERT(bad([&]{ C q(y); q.getLength(); })==!sup(T,t),#C)
  HL(ListFS,gs_tyFSListType); HL(IntListFS,gs_tyIntListType); HL(FloatListFS,gs_tyFloatListType); HL(StringListFS,gs_tyStringListType);
  SX_ASSERT(bad([&]{ AnnotationFS q(y); q.getBeginPosition(); })==!sup(gs_tyAnnotationType,t),"AnnotationFS"); SX_ASSERT(bad([&]{ y.getType(); })==(v==nval),"getType of an invalid structure"); SX_ASSERT(bad([&]{ y.clone(); })==(v==nval),"clone of an invalid structure"); symx_reached("handles"); unchanged(-1,-1); }
// structures that may not be created
SYMX_SCENARIO_SETUP(creation,setup){ using namespace uima::internal; ll::TyFSType t[]={gs_tyIntegerType,gs_tyFloatType,gs_tyStringType,gs_tyBooleanType,gs_tyByteType,gs_tyShortType,gs_tyLongType,gs_tyDoubleType,A,D,X}; int n=sx_choose("type",12); bool th=bad([&]{ FeatureStructure q=g_cas->createFS(n<11?hT(t[n]):Type()); SX_ASSERT(q.isValid()&&q.getType()==hT(t[n]),"created type"); }); SX_ASSERT(th==(n<8||n==11),"creation refused exactly for primitive and invalid types"); symx_reached("creation"); unchanged(-1,-1); }
