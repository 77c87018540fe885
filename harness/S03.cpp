// S03: definitions and data can be transferred to another CAS.
// BOUND: type systems with two types (below TOP, Annotation or the first), two features (any introducing type; integer, TOP, string, restricted string, long array or user range; multiple references or not), a restricted string type with 0..2 values of one symbolic unit, symbolic one-unit names, 0..1 (thorough: 0..2) declared priorities, one index of any kind with up to 2 keys of either direction; strings copied or referenced; type names of up to about 4600 units; transferred into a new definition or one that held other types; data of any 1 (thorough: 2) of the 16 steps of S01 under the transferred definition
// BOUND: also contents of 5 views, 60 structures with strings of up to 390 units, arrays of every kind with 19..73 elements, 24 annotations, index entries in every index (one place of each kind any value; four sizes)
// OUTSIDE: longer definitions; names of types and features longer than one unit
#include "ser.hpp"
static Dump da_,db_;
static ll::TyFSType t_[4]; static ll::TyFSFeature f_[2];
static icu::UnicodeString un(uint16_t u){ char16_t c=(char16_t)u; return icu::UnicodeString(&c,1); }
static void base(){ hResMgr(); g_def=new HDef(); g_def->init(); }
static bool ix_; static int ch(const char* n,int k){ return ix_&&!symx_thorough()?k-1:sx_choose(n,k); } // the index scenario fixes the types
static void define(){ using namespace uima::internal; ll::TypeSystem& ts=g_def->ts(); uint16_t n[5]; for(int i=0;i<5;++i){ n[i]=sx_unit(nm("n",i)); symx_assume(n[i]!=(uint16_t)uima::TypeSystem::FEATURE_SEPARATOR); for(int j=0;j<i;++j) symx_assume(n[i]!=n[j]); }
  t_[0]=ch("p0",2)?gs_tyAnnotationType:ts.getTopType(); t_[0]=ts.createType(t_[0],un(n[0]),US("h")); int v=ch("values",3); std::vector<icu::UnicodeString> vals; for(int i=0;i<v;++i) vals.push_back(un(sx_unit(nm("val",i)))); t_[2]=ts.createStringSubtype(un(n[2]),vals,US("h"));
  int p=sx_choose("p1",3); t_[1]=ts.createType(p==0?ts.getTopType():p==1?gs_tyAnnotationType:t_[0],un(n[1]),US("h"));
  int m=symx_thorough()?2:1; ll::TyFSType R[]={gs_tyIntegerType,ts.getTopType(),gs_tyStringType,t_[2],gs_tyLongArrayType,t_[1]}; for(int i=0;i<2;++i){ ll::TyFSType r=i<m?R[ch(nm("range",i),6)]:gs_tyIntegerType; f_[i]=ts.createFeature(t_[i<m?ch(nm("intro",i),2):1],r,i<m&&ch(nm("multi",i),2),un(n[3+i]),US("h")); }
  for(int i=0;i<m;++i){ int a=ch(nm("prio",i),3); if(a) ts.addTypePriority(a==1?t_[0]:t_[1],a==1?t_[1]:t_[0]); } g_def->commit(); }
static void kinds(){ using namespace uima::internal; g_def->ix=[](HDef& D){ int k=sx_choose("kind",3); std::vector<ll::TyFSFeature> f; std::vector<IC::EnKeyFeatureComp> c; ll::TypeSystem& ts=D.ts(); if(k!=2){ if(ts.getFeatureOffset(f_[1])) { f.push_back(f_[1]); c.push_back(sx_choose("dir",2)?IC::REVERSE_STANDARD_COMPARE:IC::STANDARD_COMPARE); } if(k==0&&ts.subsumes(uima::internal::gs_tyAnnotationType,t_[1])&&sx_choose("key2",2)){ f.push_back(uima::internal::gs_tyBeginPosFeature); c.push_back(IC::STANDARD_COMPARE); } } D.iv_indexDefinition->defineIndex(k==0?ID::enOrdered:k==1?ID::enSet:ID::enFIFO,t_[1],f,c,US("ix")); }; }
static void compare(HDef* a,HDef* b){ ll::TypeSystem &x=a->ts(),&y=b->ts(); size_t n=x.getNumberOfTypes(); SX_ASSERT(y.getNumberOfTypes()==n,"number of types"); SX_ASSERT(y.getNumberOfFeatures()==x.getNumberOfFeatures(),"number of features");
  for(size_t i=1;i<=n;++i){ SX_ASSERT(x.getTypeName(i)==y.getTypeName(i),"type names"); SX_ASSERT(x.getParentType(i)==y.getParentType(i),"parents"); SX_ASSERT(y.getTypeByName(x.getTypeName(i))==i,"lookup by name"); std::vector<ll::TyFSFeature> u,v; x.getAppropriateFeatures(i,u); y.getAppropriateFeatures(i,v); SX_ASSERT(u==v,"features of a type"); SX_ASSERT(x.getTypePriorityNumber(i)==y.getTypePriorityNumber(i),"type priorities"); }
  for(int i=0;i<3;++i) for(size_t k=1;k<=n;++k){ SX_ASSERT(x.subsumes(t_[i],k)==y.subsumes(t_[i],k),"subsumption"); SX_ASSERT(x.subsumes(k,t_[i])==y.subsumes(k,t_[i]),"subsumption"); }
  for(size_t k=1;k<=x.getNumberOfFeatures();++k){ SX_ASSERT(x.getFeatureBaseName(k)==y.getFeatureBaseName(k),"feature names"); SX_ASSERT(x.getIntroType(k)==y.getIntroType(k),"introducing types"); SX_ASSERT(x.getRangeType(k)==y.getRangeType(k),"ranges"); SX_ASSERT(x.getFeatureOffset(k)==y.getFeatureOffset(k),"offsets"); SX_ASSERT(x.isMultipleReferencesAllowed(k)==y.isMultipleReferencesAllowed(k),"multiple references"); }
  std::vector<icu::UnicodeString> const &u=x.getStringsForStringSubtype(t_[2]),&v=y.getStringsForStringSubtype(t_[2]); SX_ASSERT(u.size()==v.size(),"restricted strings"); for(size_t i=0;i<u.size();++i) SX_ASSERT(u[i]==v[i],"restricted strings");
  ID &p=a->getIndexDefinition(),&q=b->getIndexDefinition(); std::vector<ID::TyIndexID> ia,ib; p.getAllIndexIDs(ia); q.getAllIndexIDs(ib); SX_ASSERT(ia.size()==ib.size(),"number of indexes"); for(size_t i=0;i<ia.size();++i){ SX_ASSERT(q.isValidIndexId(ia[i]),"index labels"); SX_ASSERT(p.getIndexKind(ia[i])==q.getIndexKind(ia[i]),"index kinds"); SX_ASSERT(p.getTypeForIndex(ia[i])==q.getTypeForIndex(ia[i]),"index types"); IC const *c=p.getComparator(ia[i]),*d=q.getComparator(ia[i]); SX_ASSERT((c==0)==(d==0),"index keys"); if(c&&d){ SX_ASSERT(c->getKeyFeatures()==d->getKeyFeatures(),"index keys"); SX_ASSERT(c->getComparisonOps()==d->getComparisonOps(),"index directions"); } } }
static int cp_=1;
static HDef* transfer(HDef* from,bool used){ using namespace uima::internal; HDef* e=new HDef(); if(used) e->ty=[](HDef& D){ ll::TyFSType a=D.type(D.ts().getTopType(),"Old"); D.feat(a,gs_tyIntegerType,"old"); D.type(a,"Older"); }; e->init(); if(used) e->commit(); SerializedCAS sc; CASSerializer ser(cp_!=0); ser.serializeDefinitions(*from,sc); CASDeserializer de; de.deserializeDefinitions(sc,*e); return e; }
static void defs(bool used){ cp_=sx_choose("copy",2); define(); HDef* e=transfer(g_def,used); compare(g_def,e); HDef* w=transfer(e,false); compare(g_def,w); symx_reached("defs"); }
SYMX_SCENARIO_SETUP(definitions,base){ ix_=false; defs(symx_thorough()&&sx_choose("used",2)); }
SYMX_SCENARIO_SETUP(indexes_,base){ ix_=true; kinds(); defs(sx_choose("used",2)); }
static HDef* tdef_;
static void dataSetup(){ serSetup(); tdef_=transfer(g_def,false); }
SYMX_SCENARIO_SETUP(data,dataSetup){ using namespace uima::internal; bas_=g_cas; nall_=0; int n=symx_thorough()?2:1; for(int i=0;i<n;++i) act(sx_choose(nm("a",i),NACT),i); root(); dump(da_,g_cas); CAS* t=hCreate(tdef_); SerializedCAS sc; CASSerializer ser(sx_choose("copy",2)); CASDeserializer de; ser.serializeData(*g_cas,sc); de.deserializeData(sc,*t); dump(db_,t); same(da_,db_,"the transferred CAS has the same content"); after(t); dump(db_,t); same(da_,db_,"later creations leave it alone"); symx_reached("data"); }
// names of any total length
SYMX_SCENARIO_SETUP(long_names,base){ cp_=sx_choose("copy",2); ll::TypeSystem& ts=g_def->ts(); int k=sx_choose("n",3); icu::UnicodeString nm_[4]; for(int i=0;i<4;++i){ for(int j=0;j<2600+k*1000;++j) nm_[i].append((UChar)('a'+(i*7+j)%26)); uint16_t q=sx_unit(nm("n",i)); symx_assume(q!=(uint16_t)uima::TypeSystem::FEATURE_SEPARATOR&&q>0x100); nm_[i].append((UChar)q); ll::TyFSType t=ts.createType(i?t_[0]:ts.getTopType(),nm_[i],US("h")); if(i<3) t_[i]=t; ts.createFeature(t,uima::internal::gs_tyIntegerType,false,US("f").append((UChar)('0'+i)),US("h")); } std::vector<icu::UnicodeString> no; g_def->commit(); HDef* e=transfer(g_def,false); ll::TypeSystem &x=g_def->ts(),&y=e->ts(); bool ok=y.getNumberOfTypes()==x.getNumberOfTypes(); for(size_t i=1;ok&&i<=x.getNumberOfTypes();++i){ icu::UnicodeString const &a=x.getTypeName(i),&b=y.getTypeName(i); ok=a.length()==b.length(); unsigned d=0; for(int j=0;ok&&j<a.length();j+=j+130<a.length()?127:1) d|=(unsigned)(a.charAt(j)^b.charAt(j)); SX_ASSERT(d==0,"long type names"); } SX_ASSERT(ok,"long type names"); symx_reached("long"); }
SYMX_SCENARIO_SETUP(larger_data,dataSetup){ using namespace uima::internal; bigFill(sx_choose("sz",4)); bigDump(0,g_cas); CAS* t=hCreate(tdef_); SerializedCAS sc; CASSerializer ser(sx_choose("copy",2)); CASDeserializer de; ser.serializeData(*g_cas,sc); de.deserializeData(sc,*t); bigDump(1,t); bigSame("the transferred CAS has the same larger content"); after(t); bigDump(1,t); bigSame("later creations leave it alone"); symx_reached("larger data"); }
