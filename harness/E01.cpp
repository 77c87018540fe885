// E01: type system descriptions are realised faithfully.
// BOUND: every description of up to 3 types in every order, each below TOP, Annotation, String, a final type, an unknown type, or any described type (cycles included), over an empty type system and over one in which one of them already exists; features of equal or different range on any of them; allowed values of 1..2 arbitrary code units for an existing and a described string subtype; each type described twice; chains of up to 4 type priorities; index descriptions given twice
// BOUND: written as XML by XMLTypeSystemWriter and read back by XMLTypeSystemReader, into an empty type system or one that has the first type: 3 types, each below TOP, Annotation or an earlier one, with a feature of every kind of range, multiple references allowed or not
// BOUND: imports: every import graph over 3 files in two directories (cycles and self imports included), parsed by the real Xerces parser
// BOUND: 40 types in three shapes of hierarchy and four orders with up to 3 features each and a string subtype of 20 values (one arbitrary), with one of three inconsistencies or none; type priorities over 16 types in three chains and a further pair
// OUTSIDE: types described below a restricted string; allowed values in type systems written as XML (its format has none), descriptor syntax (schema validation), imports by name
#include "cascommon.hpp"
#include <uima/typesystemdescription.hpp>
#include <uima/taespecifier.hpp>
#include <uima/taespecifierbuilder.hpp>
#include <uima/xmltypesystemwriter.hpp>
#include <uima/xmltypesystemreader.hpp>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
static void setup(){ hResMgr(); }
static const char* N3[3]={"d.P","d.Q","d.R"};
struct MDef : public HDef { MDef(){ init(); } };
static TypeDescription* mkT(const char* n,const char* s){ TypeDescription* t=new TypeDescription(); t->setName(US(n)); t->setSuperTypeName(US(s)); return t; }
static void addT(TypeSystemDescription& d,TypeDescription* t){ bool own=false; if(d.addTypeDescription(t,own)!=UIMA_ERR_NONE) abort(); if(!own) delete t; }
static void addF(TypeDescription* t,const char* n,const char* r,bool multi=false){ FeatureDescription* f=new FeatureDescription(); f->setName(US(n)); f->setRangeTypeName(US(r)); f->setMultipleReferencesAllowed(multi); bool own=false; if(t->addFeatureDescription(f,own)!=UIMA_ERR_NONE||!own) abort(); }
static void addV(TypeDescription* t,icu::UnicodeString const& v){ AllowedValue* a=new AllowedValue(); a->setName(v); bool own=false; if(t->addAllowedValue(a,own)!=UIMA_ERR_NONE||!own) abort(); }
static const int PERM[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
static size_t ntypes(ll::TypeSystem& ts){ std::vector<ll::TyFSType> v; ts.getAllTypes(v); return v.size(); }
static size_t nfeats(ll::TypeSystem& ts){ std::vector<ll::TyFSFeature> v; ts.getAllFeatures(v); return v.size(); }
// parents: 0..2 the described types, then
static const char* SUP[9]={"d.P","d.Q","d.R","uima.cas.TOP","uima.tcas.Annotation","uima.cas.String","uima.cas.IntegerArray","d.Unknown","d.E"};
static const char* RNG[5]={"uima.cas.Integer","uima.cas.String","d.P","d.Unknown","uima.cas.FSArray"};
static bool sym(const char* a,const char* b){ return strcmp(a,b)==0; }
// ---- hierarchy
static void hier(int nd,bool exist){ MDef m; ll::TypeSystem& ts=m.ts(); int pre=-1; if(exist){ pre=sx_choose("pre",3); ll::TyFSType p=pre==0?ts.getTopType():pre==1?uima::internal::gs_tyAnnotationType:uima::internal::gs_tyStringType; if(pre==2){ std::vector<icu::UnicodeString> v; v.push_back(US("v")); ts.createStringSubtype(US("d.P"),v,US("x")); } else ts.createType(p,US("d.P"),US("x")); }
  int s[3]; for(int i=0;i<nd;++i) s[i]=sx_choose(nm("s",i),nd==3?8:8); int o=nd==3?sx_choose("o",6):sx_choose("o",2); TypeDescription* t[3]; for(int i=0;i<nd;++i){ t[i]=mkT(N3[i],SUP[s[i]]); if(s[i]==5) addV(t[i],US("v")); } TypeSystemDescription d; for(int i=0;i<nd;++i) addT(d,t[nd==3?PERM[o][i]:o?nd-1-i:i]);
  bool twice=sx_choose("twice",2);
  // oracle: par[i] 0..2 described, 3.. fixed; valid?
  bool ok=true; for(int i=0;i<nd&&ok;++i){ int c=i,n=0; while(c<3&&n<=3){ if(c>=nd){ if(!(exist&&c==0)) ok=false; break; } c=s[c]; ++n; } if(n>3) ok=false; if(c==6||c==7) ok=false; }
  for(int i=0;i<nd;++i){ int p=s[i]; if(p<3&&((p<nd&&s[p]==5)||(p==0&&exist&&pre==2))) return; }   // types below restricted strings: not covered
  if(exist&&nd>0){ int want=pre==0?3:pre==1?4:5; if(s[0]!=want) ok=false; }
  size_t n0=ntypes(ts); bool th=throwsUima([&]{ m.mergeTypeSystem(d,US("c")); if(twice) m.mergeTypeSystem(d,US("c")); });
  SX_ASSERT(th==!ok,"accepted exactly when every type has a chain of known ancestors that may have subtypes, and existing types keep their parent");
  if(ok){ SX_ASSERT(ntypes(ts)==n0+nd-(exist?1:0),"exactly the described types"); for(int i=0;i<nd;++i){ ll::TyFSType x=ts.getTypeByName(US(N3[i])); SX_ASSERT(ts.isValidType(x)&&ts.getParentType(x)==ts.getTypeByName(US(SUP[s[i]])),"the described parent"); if(s[i]==5) SX_ASSERT(ts.getStringsForStringSubtype(x).size()==1,"restricted string"); } bool c2=throwsUima([&]{ ts.commit(); }); SX_ASSERT(!c2,"can be committed"); symx_reached("accepted"); } else symx_reached("refused"); symx_observe(th); }
SYMX_SCENARIO_SETUP(hierarchy,setup){ hier(3,false); }
SYMX_SCENARIO_SETUP(hierarchy_existing,setup){ hier(2,true); }
// ---- features: P, Q below P or TOP, R below Q, P or TOP
SYMX_SCENARIO_SETUP(features,setup){ int sq=sx_choose("sq",2),sr=sx_choose("sr",3),o=sx_choose("o",6); const char* sup[3]={"uima.cas.TOP",sq?"d.P":"uima.cas.TOP",sr==0?"uima.cas.TOP":sr==1?"d.P":"d.Q"}; int r[3]; TypeDescription* t[3]; bool mu[3]; for(int i=0;i<3;++i){ r[i]=sx_choose(nm("r",i),i==0?6:5)-1; t[i]=mkT(N3[i],sup[i]); mu[i]=i==1&&r[1]==1; if(r[i]>=0) addF(t[i],"x",RNG[r[i]],mu[i]); addF(t[i],nm("own",i),"uima.cas.Float"); }
  bool anc[3][3]; memset(anc,0,sizeof anc); anc[1][0]=sq; anc[2][0]=sr==1||(sr==2&&sq); anc[2][1]=sr==2;
  bool pre=sx_choose("pre",2); MDef m; ll::TypeSystem& ts=m.ts(); if(pre){ ll::TyFSType e=ts.createType(ts.getTopType(),US("d.P"),US("x")); ts.createFeature(e,uima::internal::gs_tyIntegerType,false,US("x"),US("x")); }
  TypeSystemDescription d; for(int i=0;i<3;++i) addT(d,t[PERM[o][i]]); size_t f0=nfeats(ts);
  int eff[3]={pre?0:r[0],r[1],r[2]}; bool ok=true; for(int i=0;i<3;++i){ if(r[i]==3) ok=false; if(r[i]>=0&&pre&&i==0&&r[0]!=0) ok=false; for(int j=0;j<3;++j) if(anc[i][j]&&r[i]>=0&&eff[j]>=0&&eff[j]!=r[i]) ok=false; }
  bool th=throwsUima([&]{ m.mergeTypeSystem(d,US("c")); if(o==0) m.mergeTypeSystem(d,US("c")); }); SX_ASSERT(th==!ok,"accepted exactly when ranges are known and agree with inherited features, whatever the order");
  if(ok){ size_t n=3; for(int i=0;i<3;++i){ bool inh=false; for(int j=0;j<3;++j) inh|=anc[i][j]&&eff[j]>=0; bool e=eff[i]>=0&&!inh; n+=e&&!(pre&&i==0);
      ll::TyFSType y=ts.getTypeByName(US(N3[i])); ll::TyFSFeature f=ts.getFeatureByBaseName(y,US("x")); bool has=inh||eff[i]>=0; SX_ASSERT(ts.isValidFeature(f)==has,"has the feature exactly when described for it or an ancestor"); if(e){ SX_ASSERT(ts.getIntroType(f)==y,"introduced where described"); SX_ASSERT(ts.getRangeType(f)==ts.getTypeByName(US(RNG[eff[i]])),"range"); if(!(pre&&i==0)) SX_ASSERT(ts.isMultipleReferencesAllowed(f)==mu[i],"multiple references"); }
      ll::TyFSFeature g=ts.getFeatureByBaseName(y,US(nm("own",i))); SX_ASSERT(ts.isValidFeature(g)&&ts.getIntroType(g)==y,"own feature"); } SX_ASSERT(nfeats(ts)==f0+n,"no other features"); ts.commit(); symx_reached("accepted"); } else symx_reached("refused"); symx_observe(th); }
// ---- restricted strings
SYMX_SCENARIO_SETUP(strings,setup){ int na=sx_choose("na",3),nb=sx_choose("nb",3); char16_t a[2]={(char16_t)sx_unit("a0"),(char16_t)sx_unit("a1")},b[2]={(char16_t)sx_unit("b0"),(char16_t)sx_unit("b1")}; symx_assume(a[0]!=a[1]); symx_assume(b[0]!=b[1]); MDef m; ll::TypeSystem& ts=m.ts(); TypeDescription* t=mkT("d.P","uima.cas.String"); for(int i=0;i<na;++i) addV(t,icu::UnicodeString(a+i,1)); TypeDescription* u=mkT("d.P","uima.cas.String"); for(int i=0;i<nb;++i) addV(u,icu::UnicodeString(b+i,1)); 
  if(sx_choose("same",2)){ // described twice in one description: the union
    TypeSystemDescription d; addT(d,t); addT(d,u); m.mergeTypeSystem(d,US("c")); unsigned n=na; for(int j=0;j<nb;++j){ unsigned dup=0; for(int i=0;i<na;++i) dup|=a[i]==b[j]; n+=1-dup; } std::vector<icu::UnicodeString> const& v=ts.getStringsForStringSubtype(ts.getTypeByName(US("d.P"))); SX_ASSERT(v.size()==n,"the union of the allowed values"); for(int j=0;j<na+nb;++j){ char16_t c=j<na?a[j]:b[j-na]; unsigned f=0; for(size_t k=0;k<v.size();++k) f|=v[k].charAt(0)==c; SX_ASSERT(f==1,"every allowed value"); } symx_reached("union"); return; }
  TypeSystemDescription d,e; addT(d,t); addT(e,u); m.mergeTypeSystem(d,US("c")); bool th=throwsUima([&]{ m.mergeTypeSystem(e,US("c2")); }); unsigned eq=na==nb; for(int i=0;i<na;++i){ unsigned f=0; for(int j=0;j<nb;++j) f|=a[i]==b[j]; eq&=f; } SX_ASSERT(th==(eq==0),"refused exactly when the allowed values differ"); std::vector<icu::UnicodeString> const& v=ts.getStringsForStringSubtype(ts.getTypeByName(US("d.P"))); SX_ASSERT((int)v.size()==na,"unchanged"); symx_observe(th); }
// ---- one type described twice
SYMX_SCENARIO_SETUP(described_twice,setup){ int s1=sx_choose("s1",2),s2=sx_choose("s2",2); int r[2][2]; TypeDescription* t[2]; for(int i=0;i<2;++i){ t[i]=mkT("d.P",(i?s2:s1)?"uima.tcas.Annotation":"uima.cas.TOP"); for(int k=0;k<2;++k){ r[i][k]=sx_choose(nm("r",i*2+k),3)-1; if(r[i][k]>=0) addF(t[i],k?"y":"x",RNG[r[i][k]]); } } int how=sx_choose("how",2); TypeSystemDescription d; addT(d,t[0]); bool ok=s1==s2; for(int k=0;k<2;++k) if(r[0][k]>=0&&r[1][k]>=0&&r[0][k]!=r[1][k]) ok=false;
  bool th=throwsUima([&]{ if(how){ std::vector<TypeDescription*> v; v.push_back(t[1]); d.mergeTypeDescriptions(v); delete t[1]; } else addT(d,t[1]); }); SX_ASSERT(th==!ok,"refused exactly when parent or a range differs"); if(ok){ SX_ASSERT(d.getTypeDescriptions().size()==1,"one description"); TypeDescription* p=d.getTypeDescription(US("d.P")); size_t n=0; for(int k=0;k<2;++k){ int w=r[0][k]>=0?r[0][k]:r[1][k]; n+=w>=0; FeatureDescription* f=p->getFeatureDescription(US(k?"y":"x")); SX_ASSERT((f!=NULL)==(w>=0),"the union of the features"); if(f) SX_ASSERT(f->getRangeTypeName()==US(RNG[w]),"range"); } SX_ASSERT(p->getFeatureDescriptions().size()==n,"no other features"); symx_reached("merged"); } symx_observe(th); }
// ---- priorities
SYMX_SCENARIO_SETUP(priorities,setup){ MDef m; ll::TypeSystem& ts=m.ts(); ll::TyFSType y[3]; for(int i=0;i<3;++i) y[i]=ts.createType(i==2?y[0]:ts.getTopType(),US(N3[i]),US("x")); int nc=sx_choose("nc",2)+1; AnalysisEngineMetaData::TyVecpTypePriorities v; bool before[3][3]; memset(before,0,sizeof before); bool ok=true; 
  for(int c=0;c<nc;++c){ TypePriority* p=new TypePriority(); int len=sx_choose(nm("len",c),nc==1?5:4); int prev=-1; for(int i=0;i<len;++i){ int w=sx_choose(nm("w",c*4+i),4); p->addType(US(w==3?"d.Unknown":N3[w])); if(w==3&&len>1) ok=false; if(prev>=0&&prev<3&&w<3) before[prev][w]=true; prev=w; } v.push_back(p); }
  for(int k=0;k<3;++k) for(int i=0;i<3;++i) for(int j=0;j<3;++j) before[i][j]|=before[i][k]&&before[k][j]; for(int i=0;i<3;++i) if(before[i][i]) ok=false;
  bool th=throwsUima([&]{ m.addTypePriorities(v); }); SX_ASSERT(th==!ok,"refused exactly when a type is unknown or the order is cyclic"); if(ok){ ts.commit(); for(int i=0;i<3;++i) for(int j=0;j<3;++j) if(before[i][j]) SX_ASSERT(ts.getTypePriorityNumber(y[i])<ts.getTypePriorityNumber(y[j]),"every chain is respected"); symx_reached("ordered"); } symx_observe(th); }
// ---- indexes
static FSIndexDescription* mkX(int q,int* kind,int* ty,int* k){ FSIndexDescription* x=new FSIndexDescription(); x->setLabel(US("ix")); *kind=sx_choose(nm("kind",q),3); *ty=sx_choose(nm("ty",q),3); x->setIndexKind(*kind==0?FSIndexDescription::SORTED:*kind==1?FSIndexDescription::SET:FSIndexDescription::BAG); x->setTypeName(US(*ty==0?"d.P":*ty==1?"d.Q":"d.Unknown")); *k=sx_choose(nm("k",q),5); 
  for(int i=0;i<2;++i){ FSIndexKeyDescription* e=new FSIndexKeyDescription(); if(i==1){ if(*k!=3){ delete e; break; } e->setIsTypePriority(); } else { e->setFeatureName(US(*k==1||*k==3?"x":*k==2?"z":*k==4?"y":"x")); e->setComparator(*k==1?FSIndexKeyDescription::REVERSE:FSIndexKeyDescription::STANDARD); } x->addFSIndexKey(e); } return x; }   // k: 0 x asc, 1 x desc, 2 unknown feature, 3 x + priority, 4 y (only on Q)
SYMX_SCENARIO_SETUP(indexes,setup){ MDef m; ll::TypeSystem& ts=m.ts(); ll::TyFSType P=ts.createType(uima::internal::gs_tyAnnotationType,US("d.P"),US("x")),Q=ts.createType(P,US("d.Q"),US("x")); ll::TyFSFeature fx=ts.createFeature(P,uima::internal::gs_tyIntegerType,false,US("x"),US("x")); ll::TyFSFeature fy=ts.createFeature(Q,uima::internal::gs_tyIntegerType,false,US("y"),US("x")); ts.commit(); m.createPredefinedCASIndexes();
  int kind[2],ty[2],k[2]; int n=sx_choose("n",2)+1; AnalysisEngineMetaData::TyVecpFSIndexDescriptions v; bool ok=true; for(int i=0;i<n;++i){ v.push_back(mkX(i,kind+i,ty+i,k+i)); if(ty[i]==2||k[i]==2||(k[i]==4&&ty[i]!=1)) ok=false; } if(n==2&&ok&&!(kind[0]==kind[1]&&ty[0]==ty[1]&&(kind[0]==2||k[0]==k[1]))) ok=false;
  bool th=throwsUima([&]{ m.createIndexesFromSpecifier(v); }); SX_ASSERT(th==!ok,"refused exactly when type or feature is unknown or the label is used differently"); if(ok){ m.getIndexDefinition().commit(); ID& d=m.getIndexDefinition(); SX_ASSERT(d.isValidIndexId(US("ix"))&&d.getTypeForIndex(US("ix"))==(ty[0]?Q:P),"index type"); SX_ASSERT(d.getIndexKind(US("ix"))==(kind[0]==0?ID::enOrdered:kind[0]==1?ID::enSet:ID::enFIFO),"index kind"); std::vector<icu::UnicodeString> ids; d.getAllIndexIDs(ids); SX_ASSERT(ids.size()==3,"no other index"); if(kind[0]!=2){ ll::IndexComparator const* c=d.getComparator(US("ix")); SX_ASSERT(c->getKeyFeatures().size()==(k[0]==3?2u:1u)&&c->getKeyFeatures()[0]==(k[0]==4?fy:fx)&&(k[0]!=3||c->getKeyFeatures()[1]==ll::TypeSystem::INVALID_FEATURE),"keys"); SX_ASSERT((c->getComparisonOps()[0]==IC::REVERSE_STANDARD_COMPARE)==(k[0]==1),"direction"); } symx_reached("defined"); } symx_observe(th); }
// ---- imports, through files
SYMX_SCENARIO_SETUP(imports,setup){ char b[]="/tmp/symxE01XXXXXX"; if(!mkdtemp(b)) abort(); std::string dir(b); if(mkdir((dir+"/sub").c_str(),0700)) abort(); int imp[3]; for(int i=0;i<3;++i) imp[i]=sx_choose(nm("imp",i),8); int how=sx_choose("how",3); for(int i=0;i<3;++i){ std::string x="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>n</name><imports>"; for(int j=0;j<3;++j) if(imp[i]>>j&1) x+=std::string("<import location=\"")+(j==2&&i!=2?"sub/":i==2&&j!=2?"../":"")+"f"+(char)('0'+j)+".xml\"/>"; x+=std::string("</imports><types><typeDescription><name>")+N3[i]+"</name><supertypeName>uima.cas.TOP</supertypeName></typeDescription></types></typeSystemDescription>"; FILE* f=fopen((dir+(i==2?"/sub/f":"/f")+(char)('0'+i)+".xml").c_str(),"w"); if(!f||fwrite(x.data(),1,x.size(),f)!=x.size()) abort(); fclose(f); }
  unsigned reach=1; for(int k=0;k<3;++k) for(int i=0;i<3;++i) if(reach>>i&1) reach|=imp[i]; std::string f0=dir+"/f0.xml"; ErrorInfo e; TypeSystem* ts=0; bool th=throwsUima([&]{ if(how==0) ts=Framework::createTypeSystem(f0.c_str(),e); else { TypeSystemDescription* d=Framework::createTypeSystemDescription(f0.c_str()); ts=how==1?Framework::createTypeSystem(*d,US("c"),e):Framework::createTypeSystem(*d,AnalysisEngineMetaData::TyVecpTypePriorities(),US("c"),e); delete d; } });
  for(int i=0;i<3;++i) unlink((dir+(i==2?"/sub/f":"/f")+(char)('0'+i)+".xml").c_str()); rmdir((dir+"/sub").c_str()); rmdir(dir.c_str()); SX_ASSERT(!th&&ts!=0,"created"); for(int i=0;i<3;++i) SX_ASSERT(ts->getType(US(N3[i])).isValid()==(bool)(reach>>i&1),"exactly the types of the files imported directly or indirectly"); delete ts; symx_observe(reach); }
// ---- written as XML and read back
static std::string dumpTS(ll::TypeSystem& ts){ std::vector<ll::TyFSType> v; ts.getAllTypes(v); std::vector<std::string> l; for(auto t:v){ std::string x,n; ts.getTypeName(t).toUTF8String(x); x+="<"; ll::TyFSType p=ts.getParentType(t); if(ts.isValidType(p)) ts.getTypeName(p).toUTF8String(x); l.push_back(x); } std::vector<ll::TyFSFeature> w; ts.getAllFeatures(w); for(auto f:w){ std::string x; ts.getTypeName(ts.getIntroType(f)).toUTF8String(x); x+=":"; ts.getFeatureBaseName(f).toUTF8String(x); x+=":"; ts.getTypeName(ts.getRangeType(f)).toUTF8String(x); if(ts.isMultipleReferencesAllowed(f)) x+="*"; l.push_back(x); } std::sort(l.begin(),l.end()); std::string r; for(auto& x:l) r+=x+"\n"; return r; }
SYMX_SCENARIO_SETUP(written,setup){ MDef m; ll::TypeSystem& ts=m.ts(); static const char* R[4]={"uima.cas.Integer","d.P","uima.cas.FSArray","uima.cas.FloatList"}; int sup[3]; for(int i=0;i<3;++i){ sup[i]=sx_choose(nm("s",i),2+i); ts.createType(sup[i]==0?ts.getTopType():sup[i]==1?uima::internal::gs_tyAnnotationType:ts.getTypeByName(US(N3[sup[i]-2])),US(N3[i]),US("x")); } for(int i=0;i<3;++i){ int r=i==1&&!symx_thorough()?1:(int)sx_choose(nm("r",i),5)-1; if(r>=0) ts.createFeature(ts.getTypeByName(US(N3[i])),ts.getTypeByName(US(R[r])),r>=2?sx_choose(nm("mu",i),2):0,US(nm("f",i)),US("x")); } m.commit(); CAS* c=hCreate(&m); std::ostringstream os; XMLTypeSystemWriter(*c).write(os);
  MDef n; if(sx_choose("pre",2)) n.ts().createType(sup[0]==0?n.ts().getTopType():uima::internal::gs_tyAnnotationType,US("d.P"),US("y")); XMLTypeSystemReader rd(static_cast<uima::internal::CASDefinition&>(n)); bool th=throwsUima([&]{ rd.readMemory(os.str().c_str(),US("z")); }); SX_ASSERT(!th,"readable"); SX_ASSERT(dumpTS(ts)==dumpTS(n.ts()),"the type system read is the one written"); n.ts().commit(); delete c; symx_reached("written"); }
// ---- larger descriptions: 40 types and their features in scrambled order
SYMX_SCENARIO_SETUP(larger,setup){ enum{N=40}; int shape=sx_choose("shape",3),mul=sx_choose("order",4),badAt=sx_choose("bad",4); static const int MU[4]={1,7,11,39}; char b[32]; auto name=[&](int i){ sprintf(b,i%4==1?"some.longer.package.name.Type%d":"d.T%d",i); return std::string(b); }; auto par=[&](int i){ return shape==0?i-1:shape==1?(i-1)/3:(i>5?i-5:-1); };   // chain, tree, five chains
  char16_t u=sx_unit("u"); symx_assume(u!='w'); TypeSystemDescription d; for(int k=0;k<N;++k){ int i=(k*MU[mul])%N; int p=i==0?-1:par(i); std::string s=p<0?(shape==2?"uima.tcas.Annotation":"uima.cas.TOP"):name(p); if(badAt==1&&i==33) s="d.Nowhere"; TypeDescription* t=mkT(name(i).c_str(),s.c_str()); int nf=i%4; for(int j=0;j<nf;++j){ sprintf(b,j==2?"aLongerFeatureName%d_%d":"f%d_%d",i,j); std::string fn=b; addF(t,fn.c_str(),j==0?"uima.cas.Integer":j==1?"uima.cas.FSArray":name((i*3)%N).c_str(),j==1); } if(badAt==2&&i==29) addF(t,"f1_0","uima.cas.Float"); if(badAt==3&&i==29) addF(t,"f29_9","d.Nowhere"); addT(d,t); }
  TypeDescription* r=mkT("d.Restricted","uima.cas.String"); for(int j=0;j<20;++j){ char16_t c[3]={(char16_t)(j==13?u:'a'),(char16_t)('a'+j),0}; addV(r,icu::UnicodeString(c,j==13?1:2)); } addT(d,r);
  bool isAnc=false; for(int c=29;c>=0;c=c==0?-1:par(c)) isAnc|=c==1; bool ok=!(badAt==1||badAt==3||(badAt==2&&isAnc)); MDef m; ll::TypeSystem& ts=m.ts(); size_t n0=ntypes(ts),f0=nfeats(ts); bool th=throwsUima([&]{ m.mergeTypeSystem(d,US("c")); }); SX_ASSERT(th==!ok,"a larger description is accepted exactly when it is consistent"); if(!ok){ symx_reached("refused"); return; } SX_ASSERT(ntypes(ts)==n0+N+1,"all types"); unsigned bad=0; size_t nf=0; ts.commit(); for(int i=0;i<N;++i){ ll::TyFSType t=ts.getTypeByName(US(name(i).c_str())); int p=i==0?-1:par(i); std::string s=p<0?(shape==2?"uima.tcas.Annotation":"uima.cas.TOP"):name(p); bad|=(unsigned)!(ts.isValidType(t)&&ts.getParentType(t)==ts.getTypeByName(US(s.c_str()))); for(int j=0;j<i%4;++j){ sprintf(b,j==2?"aLongerFeatureName%d_%d":"f%d_%d",i,j); std::string fn=b; ll::TyFSFeature f=ts.getFeatureByBaseName(t,US(fn.c_str())); ++nf; bad|=(unsigned)!(ts.isValidFeature(f)&&ts.getIntroType(f)==t&&ts.isMultipleReferencesAllowed(f)==(j==1)&&ts.getRangeType(f)==ts.getTypeByName(US(j==0?"uima.cas.Integer":j==1?"uima.cas.FSArray":name((i*3)%N).c_str()))); } for(int j=0;j<N;++j){ bool sup=false; for(int c=j;c>=0;c=c==0?-1:par(c)) sup|=c==i; bad|=(unsigned)(ts.subsumes(t,ts.getTypeByName(US(name(j).c_str())))!=sup); } } if(badAt==2) ++nf; SX_ASSERT(bad==0&&nfeats(ts)==f0+nf,"every type with its parent and features, and no others"); std::vector<icu::UnicodeString> const& v=ts.getStringsForStringSubtype(ts.getTypeByName(US("d.Restricted"))); unsigned found=0; for(auto& x:v) found|=(unsigned)(x.length()==1&&x.charAt(0)==u); SX_ASSERT(v.size()==20&&found==1,"all allowed values"); symx_reached("larger"); }
SYMX_SCENARIO_SETUP(longer_priorities,setup){ enum{N=16}; MDef m; ll::TypeSystem& ts=m.ts(); ll::TyFSType y[N]; char b[16]; for(int i=0;i<N;++i){ sprintf(b,"d.T%d",i); y[i]=ts.createType(i%3==2?y[i-1]:ts.getTopType(),US(b),US("x")); } int mul=sx_choose("order",4),close=sx_choose("close",5); static const int MU[4]={1,3,7,15}; int o[N]; for(int k=0;k<N;++k) o[k]=k*MU[mul]%N; AnalysisEngineMetaData::TyVecpTypePriorities v; auto add=[&](int from,int to){ TypePriority* p=new TypePriority(); for(int k=from;k<=to;++k){ sprintf(b,"d.T%d",o[k]); p->addType(US(b)); } v.push_back(p); }; add(8,15); add(0,5); add(5,8); bool ok=true; if(close){ static const int C[5][2]={{0,0},{15,0},{8,5},{3,3},{0,15}}; TypePriority* p=new TypePriority(); sprintf(b,"d.T%d",o[C[close][0]]); p->addType(US(b)); sprintf(b,"d.T%d",o[C[close][1]]); p->addType(US(b)); v.push_back(p); ok=close==4; } bool th=throwsUima([&]{ m.addTypePriorities(v); }); SX_ASSERT(th==!ok,"refused exactly when cyclic"); if(ok){ ts.commit(); bool good=true; for(int k=0;k+1<N;++k) good&=ts.getTypePriorityNumber(y[o[k]])<ts.getTypePriorityNumber(y[o[k+1]]); SX_ASSERT(good,"long chains are respected"); symx_reached("ordered"); } }
