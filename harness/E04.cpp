// E04: only consistent descriptions become engines.
// BOUND: a mandatory or optional parameter defined without groups, or in any subset of the common parameters and three groups, with every subset of settings, search strategy and default group; alone, in a delegate, next to a second parameter
// BOUND: up to 3 own index labels of one symbolic unit; up to 2 delegates describing a type with the same or another supertype, one feature of the same or another range, allowed values, merged in every order
// BOUND: committed descriptions: every setter of every part of a description with a parameter, a group, a setting, types, features, allowed values, priorities, indexes, capabilities, flow, sofa mapping and delegate
// BOUND: descriptors given as text in memory: 8 texts (several declared encodings or none, non-ASCII characters, malformed, inconsistent)
// OUTSIDE: schema validation, capabilities naming undescribed types, flow naming unknown delegates
#define DESC_LIB 1
#include "E02.cpp"
#define F01_LIB 1
#define setup setup01
#include "F01.cpp"
#undef setup
#include <uima/annotator_abase.hpp>
#include <dirent.h>
#include <fstream>
static void mand(MD* m,bool b){ for(auto& g:m->iv_configurationGroups) for(auto& p:g.second.iv_configParams) if(p.first==US("p")) p.second->iv_mandatory=b; }
static bool refused(AnalysisEngineDescription* d,TyErrorId* id=0){ try { d->validate(); return false; } catch(uima::Exception& e){ if(id) *id=(TyErrorId)e.getErrorInfo().getErrorId(); return true; } }
// the groups a parameter must have a value in: those that exist
static bool needs(Lv const& v,int strat){ if(v.kind==0) return false; if(v.kind==1) return local(v,-1,0).st!=0; for(int g=0;g<3;++g) if(v.common?(v.def>>g&1):(v.def>>g&1)) if(local(v,g,strat).st!=0) return true; return false; }
static AnalysisEngineDescription* comp(int l,Lv& v,int& strat,int rich){ AnalysisEngineDescription* d=mkD(); v=mkLv(l,d,rich); strat=v.kind==2?sx_choose(nm("strat",l),3):0; d->getAnalysisEngineMetaData()->setSearchStrategy(ST[strat]); return d; }
// groups that exist in a description, as bits over G[0..2]
static int groups(MD* m){ int r=0; for(int g=0;g<3;++g) if(m->iv_configurationGroups.count(US(G[g]))) r|=1<<g; return r; }
static bool want(MD* m,Lv const& v,int strat,bool ma){ if(!ma||v.kind==0) return false; if(v.kind==1) return !(v.has>>3&1); int gs=groups(m); for(int g=0;g<3;++g) if(gs>>g&1&&defd(v,g)) if(local(v,g,strat).st!=0) return true; return false; }
SYMX_SCENARIO_SETUP(mandatory,setup){ Lv v; int st; AnalysisEngineDescription* d=comp(0,v,st,1); MD* m=d->getAnalysisEngineMetaData(); bool ma=sx_choose("mand",2); mand(m,ma); bool w=want(m,v,st,ma); TyErrorId id=0; bool r=refused(d,&id); SX_ASSERT(r==w,"refused exactly if a mandatory parameter has no value in one of its groups"); if(r){ SX_ASSERT(id==(m->hasGroups()?(TyErrorId)UIMA_ERR_CONFIG_NO_VALUE_FOR_MANDATORY_PARAM_IN_GROUP:(TyErrorId)UIMA_ERR_CONFIG_NO_VALUE_FOR_MANDATORY_PARAM),"cause"); symx_reached("no value"); } else if(ma) symx_reached("has a value"); symx_observe(r); }
SYMX_SCENARIO_SETUP(mandatory_in_delegate,setup){ Lv v[2]; int st[2]; AnalysisEngineDescription* d[2]; for(int i=0;i<2;++i) d[i]=comp(i,v[i],st[i],2); d[0]->setPrimitive(false); d[0]->addDelegate(US("k"),d[1]); bool ma[2]; bool w=false; for(int i=0;i<2;++i){ MD* m=d[i]->getAnalysisEngineMetaData(); ma[i]=sx_choose(nm("mand",i),2); mand(m,ma[i]); w=w||want(m,v[i],st[i],ma[i]); } SX_ASSERT(refused(d[0])==w,"refused exactly if the aggregate or its delegate lacks a value"); if(w) symx_reached("delegate"); }
SYMX_SCENARIO_SETUP(labels,setup){ AnalysisEngineDescription* d[2]={mkD(),mkD()}; d[0]->setPrimitive(false); d[0]->addDelegate(US("k"),d[1]); char16_t c[4]; int at[4]; int n=sx_choose("n",3)+2; bool w=false; for(int i=0;i<n;++i){ c[i]=sx_u16(nm("c",i)); at[i]=sx_choose(nm("at",i),2); FSIndexDescription* x=new FSIndexDescription(); x->setLabel(icu::UnicodeString((UChar const*)c+i,1)); x->setTypeName(US("uima.cas.TOP")); d[at[i]]->getAnalysisEngineMetaData()->addFSIndexDescription(x); }
  TyErrorId id=0; bool r=refused(d[0],&id); for(int i=0;i<n;++i) for(int j=0;j<i;++j) w=w||(at[i]==at[j]&&c[i]==c[j]); SX_ASSERT(r==w,"refused exactly if two indexes of a component have one label"); if(r){ SX_ASSERT(id==UIMA_ERR_CONFIG_DUPLICATE_INDEX_LABEL,"cause"); symx_reached("same label"); } symx_observe(r); }
// types of an aggregate and of its delegates
struct TD { int sup,range,feat,allow; };
static const char* SUP[3]={"uima.cas.TOP","uima.tcas.Annotation","uima.cas.String"}; static const char* RNG[2]={"uima.cas.Integer","uima.cas.String"};
static TypeDescription* mkTD(TD const& t){ TypeDescription* d=new TypeDescription(); d->setName(US("d.T")); d->setSuperTypeName(US(SUP[t.sup])); bool own; if(t.feat){ FeatureDescription* f=new FeatureDescription(); f->setName(US(t.feat==1?"f":"g")); f->setRangeTypeName(US(RNG[t.range])); d->addFeatureDescription(f,own); } if(t.allow){ AllowedValue* v=new AllowedValue(); v->setName(US(t.allow==1?"x":"y")); d->addAllowedValue(v,own); } return d; }
SYMX_SCENARIO_SETUP(types_,setup){ AnalysisEngineDescription* d[3]={mkD(),mkD(),mkD()}; d[0]->setPrimitive(false); TD t[3]={}; bool has[3]; int n=symx_thorough()?3:2; for(int i=1;i<n;++i) d[0]->addDelegate(US(i==1?"a":"b"),d[i]); bool w=false; for(int i=0;i<n;++i){ has[i]=sx_choose(nm("has",i),2); if(!has[i]) continue; t[i].sup=sx_choose(nm("sup",i),3); t[i].feat=sx_choose(nm("feat",i),3); if(t[i].feat) t[i].range=sx_choose(nm("range",i),2); t[i].allow=sx_choose(nm("allow",i),3); bool own; d[i]->getAnalysisEngineMetaData()->getTypeSystemDescription()->addTypeDescription(mkTD(t[i]),own); if(t[i].allow&&t[i].sup!=2) w=true; }
  for(int i=0;i<n;++i) for(int j=0;j<i;++j) if(has[i]&&has[j]) w=w||t[i].sup!=t[j].sup||(t[i].feat&&t[i].feat==t[j].feat&&t[i].range!=t[j].range);
  bool r=refused(d[0]); SX_ASSERT(r==w,"refused exactly if descriptions of a type contradict each other or allow values of another type than string"); if(r){ symx_reached("contradiction"); return; }
  auto v=d[0]->getAnalysisEngineMetaData()->getTypeSystemDescription()->getTypeDescriptions(); bool any=has[0]||has[1]||has[2]; SX_ASSERT(v.size()==(any?1u:0u),"one description of the type"); if(any){ std::set<S> f,a,wf,wa; S sup; for(int i=0;i<n;++i) if(has[i]){ sup=SUP[t[i].sup]; if(t[i].feat) wf.insert(S(t[i].feat==1?"f:":"g:")+RNG[t[i].range]); if(t[i].allow) wa.insert(t[i].allow==1?"x":"y"); } for(auto* q:v[0]->getFeatureDescriptions()) SX_ASSERT(f.insert(u8(q->getName())+":"+u8(q->getRangeTypeName())).second,"each feature once"); for(auto* q:v[0]->getAllowedValues()) SX_ASSERT(a.insert(u8(q->getName())).second,"each value once"); SX_ASSERT(f==wf&&a==wa&&u8(v[0]->getSuperTypeName())==sup,"the union of the descriptions"); symx_reached("merged"); }
  bool again=refused(d[0]); SX_ASSERT(!again,"still consistent"); }
// after commit nothing changes
SYMX_SCENARIO_SETUP(committed,setup){ AnalysisEngineDescription* d=mkD(); MD* m=d->getAnalysisEngineMetaData(); d->setPrimitive(false); d->setAnnotatorImpName(US("imp")); d->setXmlFileLocation(US("loc")); m->setVersion(US("1")); bool grp=sx_choose("grp",2); const char* g=grp?"g":NOGROUP; if(grp){ m->addConfigurationGroup(US("g")); m->setDefaultGroupName(US("g")); } CP* p=mkP("p"); m->addConfigurationParameter(US(g),p); setI(m,g,5);
  TD t={2,0,0,1}; bool own; TypeDescription* td=mkTD(t); AllowedValue* av=td->iv_vecpAllowedValues[0]; TypeSystemDescription* ts=m->getTypeSystemDescription(); ts->addTypeDescription(td,own); TypeDescription* te=new TypeDescription(); te->setName(US("d.U")); te->setSuperTypeName(US("uima.cas.TOP")); FeatureDescription* f=new FeatureDescription(); f->setName(US("f")); f->setRangeTypeName(US("uima.cas.Integer")); te->addFeatureDescription(f,own); ts->addTypeDescription(te,own);
  FSIndexDescription* x=new FSIndexDescription(); x->setLabel(US("ix")); x->setTypeName(US("d.U")); FSIndexKeyDescription* k=new FSIndexKeyDescription(); k->setFeatureName(US("f")); k->setComparator(FSIndexKeyDescription::STANDARD); x->addFSIndexKey(k); m->addFSIndexDescription(x); TypePriority* tp=new TypePriority(); tp->addType(US("d.U")); m->addTypePriority(tp); Capability* c=new Capability(); c->addCapabilityType(US("d.U"),Capability::OUTPUT); c->addSupportedLanguage(US("en")); m->addCapability(c); FixedFlow* fl=new FixedFlow(); fl->addNode(US("k")); m->setFixedFlow(fl); SofaMapping* sm=new SofaMapping(); sm->setComponentKey(US("k")); sm->setComponentSofaName(US("s")); sm->setAggregateSofaName(US("a")); d->addSofaMapping(sm); AnalysisEngineDescription* dl=mkD(); d->addDelegate(US("k"),dl);
  Sec before=dump(*d); bool com=sx_choose("commit",2); if(com) d->commit(); TyErrorId e=0; int op=sx_choose("op",36); icu::UnicodeString z=US("zz"); bool parm=false; bool th=throwsUima([&]{ switch(op){
    case 0: e=m->setName(z); break; case 1: e=m->setDescription(z); break; case 2: e=m->setVersion(z); break; case 3: e=m->setVendor(z); break; case 4: e=m->setDefaultGroupName(z); break; case 5: e=m->setSearchStrategy(MD::LANGUAGE_FALLBACK); break; case 6: e=m->addConfigurationGroup(z); break; case 7: e=m->addConfigurationParameter(US(g),mkP("q")); break;
    case 8: e=m->addCommonParameter(mkP("q")); break; case 9: e=ts->addTypeDescription([&]{ TypeDescription* n=new TypeDescription(); n->setName(z); return n; }(),own); break; case 10: e=te->addFeatureDescription([&]{ FeatureDescription* n=new FeatureDescription(); n->setName(z); return n; }(),own); break; case 11: e=td->addAllowedValue([&]{ AllowedValue* n=new AllowedValue(); n->setName(z); return n; }(),own); break;
    case 12: e=td->setName(z); break; case 13: e=td->setSuperTypeName(z); break; case 14: e=f->setName(z); break; case 15: e=f->setRangeTypeName(z); break; case 16: e=f->setMultipleReferencesAllowed(true); break; case 17: e=av->setName(z); break; case 18: e=m->addFSIndexDescription([&]{ FSIndexDescription* n=new FSIndexDescription(); n->setLabel(z); return n; }()); break; case 19: e=x->setLabel(z); break; case 20: e=x->setTypeName(z); break; case 21: e=x->setIndexKind(FSIndexDescription::BAG); break; case 22: e=x->addFSIndexKey([&]{ FSIndexKeyDescription* n=new FSIndexKeyDescription(); n->setFeatureName(z); n->setComparator(FSIndexKeyDescription::STANDARD); return n; }()); break;
    case 23: e=k->setFeatureName(z); break; case 24: e=k->setComparator(FSIndexKeyDescription::REVERSE); break; case 25: e=m->addTypePriority(new TypePriority()); break; case 26: e=tp->addType(z); break; case 27: e=m->addCapability(new Capability()); break; case 28: e=c->addCapabilityType(z,Capability::INPUT); break; case 29: e=c->addSupportedLanguage(z); break; case 30: e=fl->addNode(z); break; case 31: e=sm->setAggregateSofaName(z); break; case 32: e=d->addDelegate(z,mkD()); break; case 33: e=d->setPrimitive(true); break; case 34: e=dl->setPrimitive(false); break; default: parm=true; e=p->setMandatory(true); } });
  bool same_=same(before,dump(*d)); if(th) return; if(com) SX_ASSERT(same_&&e!=UIMA_ERR_NONE,"a committed description refuses every change and stays the same"); else SX_ASSERT(e==UIMA_ERR_NONE&&!same_,"a change is made"); symx_reached(com?"committed":"changed"); symx_observe(op*2+com); }
// text in memory
static int tmps(){ int n=0; DIR* d=opendir("/tmp"); if(!d) return -1; while(dirent* e=readdir(d)) if(!strncmp(e->d_name,"TMP",3)&&strlen(e->d_name)==9) ++n; closedir(d); return n; }
SYMX_SCENARIO_SETUP(in_memory,setup){ int k=sx_choose("k",8); g_ws=0; S decl="<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; if(k==1) decl="<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>"; if(k==2) decl="<?xml version=\"1.0\" encoding=\"UTF-16\"?>"; if(k==3) decl=""; Doc d; d.impl=""; d.prim=false; S name=k==4?"plain":"n\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"; d.meta0=el("name",name); d.flow=el("flowConstraints","<fixedFlow></fixedFlow>"); if(k==6) d.meta0+="<name>"; if(k==7) d.fsix="<fsIndexCollection><fsIndexes><fsIndexDescription><label>x</label><typeName>uima.cas.TOP</typeName><kind>bag</kind></fsIndexDescription><fsIndexDescription><label>x</label><typeName>uima.cas.TOP</typeName><kind>bag</kind></fsIndexDescription></fsIndexes></fsIndexCollection>";
  S xml=d.xml(); xml=decl+xml.substr(xml.find('\n')+1); icu::UnicodeString u=icu::UnicodeString::fromUTF8(xml); bool bad=k>=6; int before=tmps(); ErrorInfo e; AnalysisEngine* a=0; bool th=false; try { a=Framework::createAnalysisEngine(u.getBuffer(),u.length(),e); } catch(uima::Exception&){ th=true; } SX_ASSERT(!th,"errors are reported, not thrown"); SX_ASSERT((a==0)==bad,"an engine exactly from a well-formed and consistent text"); SX_ASSERT((e.getErrorId()!=UIMA_ERR_NONE)==bad,"error reported"); if(a){ SX_ASSERT(u8(a->getAnalysisEngineMetaData().getName())==name,"the text is read unchanged"); a->destroy(); delete a; symx_reached("engine from memory"); } else symx_reached("no engine"); SX_ASSERT(tmps()==before,"no file is left behind"); symx_observe(k); }
