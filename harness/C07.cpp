// C07: the type system is a consistent inheritance hierarchy.
// BOUND: every program of 3 (thorough: 4) definitions (type below TOP, Annotation or any earlier type; feature on any earlier type with integer, TOP or user range; restricted string type), every name of one symbolic UTF-16 unit (so any pair of names may coincide), then commit, and every question of the type API asked about every pair of user types, their features and a symbolic name; every built-in type as parent and as introducing type; every program of 3 type-priority declarations over 4 (thorough: 5) types
// BOUND: 48 types in four shapes of hierarchy (chain, binary tree, flat, eight chains) with 0 to 48 features on a type, names of up to 41 units with one arbitrary unit in one of them; 40 priority declarations over 20 types in 24 patterns
// OUTSIDE: names containing the feature separator; longer programs; defining types after commit (the type system only asserts against it)
#include "cascommon.hpp"
struct T_ { ll::TyFSType id; int par; uint16_t nm; bool str; }; struct F_ { ll::TyFSFeature id; int intro; ll::TyFSType range; uint16_t nm; };
static T_ t[12]; static F_ f[8]; static int nt,nf,nb; static size_t T0,F0;
static const char* BN[]={"uima.cas.TOP","uima.tcas.Annotation"};
static bool sup(int a,int b){ for(;b>=0;b=t[b].par) if(a==b) return true; return false; }
static void base(){ hResMgr(); g_def=new HDef(); g_def->init(); ll::TypeSystem& ts=g_def->ts(); nt=nf=0; t[0]={ts.getTopType(),-1,0,false}; t[1]={uima::internal::gs_tyAnnotationType,0,0,false}; nt=nb=2; std::vector<ll::TyFSType> v; ts.getAllTypes(v); T0=v.size(); std::vector<ll::TyFSFeature> w; ts.getAllFeatures(w); F0=w.size(); }
static icu::UnicodeString un(uint16_t u){ char16_t c=(char16_t)u; return icu::UnicodeString(&c,1); }
static uint16_t name_(const char* p,int w){ uint16_t u=sx_unit(NM(p,w)); symx_assume(u!=(uint16_t)uima::TypeSystem::FEATURE_SEPARATOR); return u; }
static void counts(size_t a,size_t b){ std::vector<ll::TyFSType> v; g_def->ts().getAllTypes(v); std::vector<ll::TyFSFeature> w; g_def->ts().getAllFeatures(w); SX_ASSERT(v.size()==T0+a,"number of types"); SX_ASSERT(w.size()==F0+b,"number of features"); }
static void check(int W){ ll::TypeSystem& ts=g_def->ts(); uima::TypeSystem const& pub=ts; int N=nt; counts(nt-nb,nf);
  bool withq=W==5||symx_thorough(); uint16_t q=withq?name_("q",0):0; icu::UnicodeString uq=un(q);
  for(int a=0;a<N;++a){ Type A=hT(t[a].id); SX_ASSERT(A.isValid(),"valid"); SX_ASSERT(A.isStringSubType()==t[a].str,"restricted strings are string subtypes");
    for(int b=0;b<N;++b){ Type B=hT(t[b].id); SX_ASSERT(A.subsumes(B)==sup(a,b),"subsumption is the closure of the parent relation"); SX_ASSERT((A==B)==(a==b),"types are distinct");
      if(!t[a].str&&!t[b].str){ int m=a; while(!sup(m,b)) m=t[m].par; ll::TyFSType g=ts.getMostSpecificCommonSupertype(t[a].id,t[b].id); SX_ASSERT(g==t[m].id,"most specific common supertype"); } }
    if(a>=nb){ UnicodeStringRef r=A.getName(); SX_ASSERT(r.length()==1,"name length"); SX_ASSERT(r.getBuffer()[0]==t[a].nm,"name"); SX_ASSERT(pub.getType(un(t[a].nm))==A,"lookup by name"); UnicodeStringRef c=A.getCreatorID(); SX_ASSERT(c.length()==1&&c.getBuffer()[0]==u'h',"creator"); 
      ll::TyFSType p=ts.getParentType(t[a].id); SX_ASSERT(p==(t[a].str?uima::internal::gs_tyStringType:t[t[a].par].id),"parent"); }
    // direct subtypes and subsumed types among the user types
    std::vector<Type> ds,ss; A.getDirectSubTypes(ds); A.getSubTypes(ss); for(int b=nb;b<N;++b){ int n=0,m=0; for(size_t k=0;k<ds.size();++k) n+=ds[k]==hT(t[b].id); for(size_t k=0;k<ss.size();++k) m+=ss[k]==hT(t[b].id); SX_ASSERT(n==((!t[b].str&t[b].par==a)?1:0),"direct subtypes"); SX_ASSERT(m==(sup(a,b)?1:0),"subsumed types"); }
    // features
    std::vector<Feature> fv; A.getAppropriateFeatures(fv); int own=0; unsigned seen=0; ll::TyFeatureOffset nfe=ts.getFeatureNumber(t[a].id); int inh= sup(1,a)?3:0;
    for(int k=0;k<nf;++k){ bool e=sup(f[k].intro,a); own+=e; Feature F=hF(f[k].id); SX_ASSERT(A.isAppropriateFeature(F)==e,"a type carries its own and inherited features"); int n=0; for(size_t m=0;m<fv.size();++m) n+=fv[m]==F; SX_ASSERT(n==(e?1:0),"listed features"); if(e){ ll::TyFeatureOffset o=ts.getFeatureOffset(f[k].id); SX_ASSERT(o>=1&&o<=nfe&&o<32,"offset inside the structure"); SX_ASSERT(!(seen>>o&1),"offsets are distinct"); seen|=1u<<o; SX_ASSERT(ts.getFeatureFromOffset(t[a].id,o)==f[k].id,"feature from offset"); }
      // lookup by base name: the nearest definition
      Feature g=A.getFeatureByBaseName(un(f[k].nm)); ll::TyFSFeature x=0; for(int c=a;c>=0;c=t[c].par){ for(int m=nf-1;m>=0;--m) if(f[m].intro==c) x=f[m].nm==f[k].nm?f[m].id:x; if(x) break; } SX_ASSERT(x?g==hF(x):!g.isValid(),"feature by base name"); }
    SX_ASSERT((int)nfe==own+inh&&(int)fv.size()==own+inh,"number of features");
    if(withq){ Feature g=A.getFeatureByBaseName(uq); ll::TyFSFeature x=0; for(int c=a;c>=0;c=t[c].par){ for(int m=nf-1;m>=0;--m) if(f[m].intro==c) x=f[m].nm==q?f[m].id:x; if(x) break; } SX_ASSERT(x?g==hF(x):!g.isValid(),"feature by any base name"); }
  }
  if(withq&&W!=5){ Type Q=pub.getType(uq); ll::TyFSType x=0; for(int a=nb;a<N;++a) x=t[a].nm==q?t[a].id:x; SX_ASSERT(x?Q==hT(x):!Q.isValid(),"type by any name"); }
  for(int k=0;k<nf;++k){ Feature F=hF(f[k].id); UnicodeStringRef r=F.getName(); SX_ASSERT(r.length()==1&&r.getBuffer()[0]==f[k].nm,"feature name"); SX_ASSERT(F.getIntroType()==hT(t[f[k].intro].id),"introducing type"); SX_ASSERT(F.getRangeType()==hT(f[k].range),"range"); UnicodeStringRef c=F.getCreatorID(); SX_ASSERT(c.length()==1,"feature creator length"); SX_ASSERT(c.getBuffer()[0]==u'h',"feature creator");
    icu::UnicodeString full=ts.getFeatureName(f[k].id); SX_ASSERT(pub.getFeatureByFullName(full)==F,"feature by full name"); for(int m=0;m<k;++m) SX_ASSERT(hF(f[m].id)!=F,"features are distinct"); }
 }
static void define(int w,int op){ ll::TypeSystem& ts=g_def->ts(); bool th=false;
  switch(op){
  case 0: { int p=sx_choose(NM("parent",w),nt); symx_assume(!t[p].str); uint16_t n=name_("tn",w); ll::TyFSType id=0; th=throwsUima([&]{ id=ts.createType(t[p].id,un(n),US("h")); }); bool dup=false; for(int k=nb;k<nt;++k) dup=dup|(t[k].nm==n); SX_ASSERT(th==dup,"a type is refused exactly when its name is taken"); if(!th){ t[nt]={id,p,n,false}; ++nt; } break; }
  case 1: { int p=1+sx_choose(NM("intro",w),nt-1); symx_assume(!t[p].str); int r=w==4&&!symx_thorough()?0:sx_choose(NM("range",w),3); ll::TyFSType R=r==0?uima::internal::gs_tyIntegerType:r==1?ts.getTopType():t[nt-1].id; uint16_t n=name_("fn",w); ll::TyFSFeature id=0; th=throwsUima([&]{ id=ts.createFeature(t[p].id,R,false,un(n),US("h")); }); bool dup=false; for(int k=0;k<nf;++k) if(sup(f[k].intro,p)) dup=dup|(f[k].nm==n); SX_ASSERT(th==dup,"a feature is refused exactly when its type has one of that name"); if(!th){ f[nf]={id,p,R,n}; ++nf; } break; }
  case 2: { uint16_t n=name_("sn",w); std::vector<icu::UnicodeString> v; int m=sx_choose(NM("values",w),3); for(int k=0;k<m;++k) v.push_back(US(k?"vw":"u")); ll::TyFSType id=0; th=throwsUima([&]{ id=ts.createStringSubtype(un(n),v,US("h")); }); bool dup=false; for(int k=nb;k<nt;++k) dup=dup|(t[k].nm==n); SX_ASSERT(th==dup,"a restricted string type is refused exactly when its name is taken"); if(!th){ t[nt]={id,0,n,true}; ++nt; std::vector<icu::UnicodeString> const& g=ts.getStringsForStringSubtype(id); SX_ASSERT((int)g.size()==m,"number of values"); for(int k=0;k<m;++k) SX_ASSERT(g[k]==v[k],"values"); } break; } }
  counts(nt-nb,nf); }
SYMX_SCENARIO_SETUP(program,base){ int W=symx_thorough()?4:3; for(int w=0;w<W;++w) define(w,sx_choose(NM("op",w),3)); g_def->commit(); check(W); symx_reached("program"); }
// two types, then features on both in any order, then lookups
SYMX_SCENARIO_SETUP(features,base){ define(0,0); define(1,0); if(symx_thorough()&&sx_choose("third",2)) define(2,0); symx_assume(nt>nb); define(3,1); define(4,1); g_def->commit(); check(5); symx_reached("features"); }
// built-in types: primitives, strings and arrays are final; TOP has no features
SYMX_SCENARIO_SETUP(final_,base){ using namespace uima::internal; ll::TypeSystem& ts=g_def->ts(); ll::TyFSType p=1+sx_choose("type",35); bool fin= p==gs_tyArrayBaseType; ll::TyFSType fl[]={gs_tyIntegerType,gs_tyFloatType,gs_tyStringType,gs_tyBooleanType,gs_tyByteType,gs_tyShortType,gs_tyLongType,gs_tyDoubleType,gs_tyFSArrayType,gs_tyIntArrayType,gs_tyFloatArrayType,gs_tyStringArrayType,gs_tyBooleanArrayType,gs_tyByteArrayType,gs_tyShortArrayType,gs_tyLongArrayType,gs_tyDoubleArrayType}; for(auto e:fl) fin=fin|(e==p);
  uint16_t n='n'; bool sub=sx_choose("what",2)==0; ll::TyFSType before=ts.getFeatureByBaseName(p,un(n)); bool th=throwsUima([&]{ if(sub) ts.createType(p,un(n),US("h")); else ts.createFeature(p,gs_tyIntegerType,false,un(n),US("h")); });
  SX_ASSERT(th==(fin|(!sub&p==ts.getTopType())),"final types accept no subtypes and no features"); counts(sub&!th?1:0,!sub&!th?1:0); if(th) SX_ASSERT(!ts.isValidType(ts.getTypeByName(un(n)))&&!ts.isValidFeature(ts.getFeatureByBaseName(p,un(n))),"nothing is left of a refused definition"); (void)before;
  // definitions may go on
  bool t2=throwsUima([&]{ ts.createType(ts.getTopType(),US("later"),US("h")); }); SX_ASSERT(!t2,"later definitions work"); g_def->commit(); SX_ASSERT(ts.subsumes(ts.getTopType(),ts.getTypeByName(US("later"))),"later type"); symx_reached("final"); }
// type priorities
static void prio(){ base(); ll::TypeSystem& ts=g_def->ts(); ll::TyFSType A=g_def->type(t[1].id,"A"),B=g_def->type(A,"B"),C=g_def->type(A,"C"),D=g_def->type(t[0].id,"D"); t[2]={A,1,0,false}; t[3]={B,2,0,false}; t[4]={C,2,0,false}; t[5]={D,0,0,false}; nt=6; (void)ts; }
SYMX_SCENARIO_SETUP(priorities,prio){ ll::TypeSystem& ts=g_def->ts(); int W=3,NT=symx_thorough()?5:4; bool lt[6][6]; memset(lt,0,sizeof lt); for(int w=0;w<W;++w){ int a=1+sx_choose(NM("a",w),NT),b=1+sx_choose(NM("b",w),NT); bool ok=ts.addTypePriority(t[a].id,t[b].id); bool cyc=a==b||lt[b][a]; SX_ASSERT(ok==!cyc,"a priority is refused exactly when it closes a cycle"); if(ok) for(int x=1;x<6;++x) for(int y=1;y<6;++y) if((x==a||lt[x][a])&&(y==b||lt[b][y])) lt[x][y]=true; }
  g_def->commit(); for(int x=1;x<6;++x) for(int y=1;y<6;++y) if(x!=y){ size_t p=ts.getTypePriorityNumber(t[x].id),q=ts.getTypePriorityNumber(t[y].id); SX_ASSERT(p!=q,"priorities are a total order"); if(lt[x][y]) SX_ASSERT(p<q,"declared priorities hold"); symx_observe(p<q); } symx_reached("priorities"); }
// a larger type system
SYMX_SCENARIO_SETUP(larger,base){ enum{N=48}; ll::TypeSystem& ts=g_def->ts(); uima::TypeSystem const& pub=ts; int shape=sx_choose("shape",4),fs=sx_choose("feats",3); static ll::TyFSType y[N]; static int par[N]; char b[48]; uint16_t q=name_("q",0); symx_assume(q=='a'||q=='Z'||q=='_'||q==0x6f22); int at=sx_choose("at",3)*20; auto name=[&](int i){ sprintf(b,i%5==2?"org.example.packages.deeply.nested.Type%d":"T%d",i); icu::UnicodeString s=US(b); if(i==at) s.setCharAt(0,q); return s; };
  for(int i=0;i<N;++i){ par[i]=shape==0?i-1:shape==1?(i-1)/2:shape==2?(i%7?i-i%7:-1):(i>7?i-8:-1); if(i==0) par[i]=-1; y[i]=ts.createType(par[i]<0?(i%2?uima::internal::gs_tyAnnotationType:ts.getTopType()):y[par[i]],name(i),US("h")); }
  static ll::TyFSFeature f[N*4]; static int fi[N*4]; int nf_=0; for(int i=0;i<N;++i){ int k=fs==0?1:fs==1?(i==0?40:0):(i*7)%4; for(int j=0;j<k;++j){ sprintf(b,j%3==1?"aFeatureWithALongerName%d_%d":"f%d_%d",i,j); f[nf_]=ts.createFeature(y[i],y[(i+j)%N],false,US(b),US("h")); fi[nf_]=i; ++nf_; } }
  SX_ASSERT(throwsUima([&]{ ts.createType(ts.getTopType(),name(at),US("h")); })&&throwsUima([&]{ ts.createType(ts.getTopType(),name(47),US("h")); }),"a name taken is refused"); g_def->commit(); unsigned bad=0;
  for(int i=0;i<N;++i){ bad|=(unsigned)!(pub.getType(name(i))==hT(y[i])); Type A=hT(y[i]); for(int j=0;j<N;++j){ bool s=false; for(int c=j;c>=0;c=par[c]) s|=c==i; bad|=(unsigned)(A.subsumes(hT(y[j]))!=s); } std::vector<Type> sub,ds; A.getSubTypes(sub); A.getDirectSubTypes(ds); size_t ns=0,nd=0; for(int j=0;j<N;++j){ for(int c=j;c>=0;c=par[c]) if(c==i){ ++ns; break; } nd+=par[j]==i; } bad|=(unsigned)(sub.size()!=ns)|(unsigned)(ds.size()!=nd); int r=i; while(par[r]>=0) r=par[r]; size_t want=r%2?3:0; bool seen[256]; memset(seen,0,sizeof seen); int nfe=(int)ts.getFeatureNumber(y[i]); for(int k=0;k<nf_;++k){ bool has=false; for(int c=i;c>=0;c=par[c]) has|=c==fi[k]; want+=has; bad|=(unsigned)(A.isAppropriateFeature(hF(f[k]))!=has); if(has){ int o=(int)ts.getFeatureOffset(f[k]); bad|=(unsigned)(o<1||o>nfe||seen[o&255]); seen[o&255]=true; bad|=(unsigned)(ts.getFeatureFromOffset(y[i],o)!=f[k]); bad|=(unsigned)!(A.getFeatureByBaseName(ts.getFeatureBaseName(f[k]))==hF(f[k])); } } bad|=(unsigned)(nfe!=(int)want); for(int z=0;z<3;++z){ int j=(i*5+z*17)%N; int m=i; auto sup2=[&](int a,int c){ for(;c>=0;c=par[c]) if(a==c) return true; return false; }; while(m>=0&&!sup2(m,j)) m=par[m]; int rj=j; while(par[rj]>=0) rj=par[rj]; ll::TyFSType w=m>=0?y[m]:(r%2&&rj%2)?uima::internal::gs_tyAnnotationType:ts.getTopType(); bad|=(unsigned)(ts.getMostSpecificCommonSupertype(y[i],y[j])!=w); } }
  SX_ASSERT(bad==0,"names, subsumption, subtypes, features, offsets and common supertypes of every type of a larger type system"); symx_reached("larger"); }
SYMX_SCENARIO_SETUP(longer_priorities,base){ enum{N=20}; ll::TypeSystem& ts=g_def->ts(); ll::TyFSType y[N]; char b[16]; for(int i=0;i<N;++i){ sprintf(b,"P%d",i); y[i]=ts.createType(i%4?y[i-1]:ts.getTopType(),US(b),US("h")); } static bool lt[N][N]; memset(lt,0,sizeof lt); int mul=sx_choose("mul",4),add=sx_choose("add",6); static const int MU[4]={1,3,7,19}; unsigned bad=0; for(int w=0;w<40;++w){ int a=(w*MU[mul])%N,c=(w*MU[mul]+1+w%(add+1)*3)%N; bool ok=ts.addTypePriority(y[a],y[c]),cyc=a==c||lt[c][a]; bad|=(unsigned)(ok==cyc); if(ok) for(int p=0;p<N;++p) for(int q=0;q<N;++q) if((p==a||lt[p][a])&&(q==c||lt[c][q])) lt[p][q]=true; } SX_ASSERT(bad==0,"of many priorities exactly those closing a cycle are refused"); g_def->commit(); for(int p=0;p<N;++p) for(int q=0;q<N;++q) if(p!=q){ size_t u=ts.getTypePriorityNumber(y[p]),v=ts.getTypePriorityNumber(y[q]); bad|=(unsigned)(u==v)|(unsigned)(lt[p][q]&&u>=v); } SX_ASSERT(bad==0,"many priorities hold in a total order"); symx_reached("many priorities"); }
