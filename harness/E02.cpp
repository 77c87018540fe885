// E02: descriptors are read as written.  (with DESC_WRITE: E03, and written back faithfully)
// BOUND: per scenario, every combination of: root element (3), primitive/framework/implementation elements present or not, 11 kinds of text (surrounding blanks, character references, CDATA, comments inside, environment variable references, non-ASCII, 700 characters, empty) in every text element; up to 2 configuration parameters of every type, multiplicity, mandatory flag, restrictions, in common/no/one/two groups, every search strategy and default group; up to 2 settings of every type with 0..2 values per group, duplicates and undefined ones included; 2 types with up to 2 features or allowed values; priority lists of 0..2 types; indexes of every kind with 0..2 keys of every form; import graphs over 3 files for priorities and indexes; capabilities with every element kind, allAnnotatorFeatures on described and undescribed types; both flows; operational properties; sofa mappings; delegates inline or imported, nested
// BOUND: layout: no white space, white space or comments between elements
// OUTSIDE: schema validation, malformed XML (left to Xerces), elements the framework ignores (resources), imports by name, character data beyond the listed texts
#include "cascommon.hpp"
#include <uima/taespecifier.hpp>
#include <uima/taespecifierbuilder.hpp>
#include <uima/typesystemdescription.hpp>
#include <set>
#include <map>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
typedef std::string S;
static void setup(){ hResMgr(); setenv("SYMX_V","val",1); }
static S u8(icu::UnicodeString const& u){ S s; u.toUTF8String(s); return s; }
struct Txt { S raw,val; };
static const int NTXT=11;
static Txt txt(int i){ static const char* r[]={"plain","  two words\n","a&lt;b&amp;c&gt;d","<![CDATA[x<y & z]]>","p<!--c-->q","<envVarRef>SYMX_V</envVarRef>/t","\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80","say &quot;q&apos;","","in\tner  gap"}; static const char* v[]={"plain","two words","a<b&c>d","x<y & z","pq","val/t","\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80","say \"q'","","in\tner  gap"}; Txt t; if(i==10){ t.raw=t.val=S(700,'k'); return t; } t.raw=r[i]; t.val=v[i]; return t; }
static int g_ws; static S ws(){ return g_ws==0?"":g_ws==1?"\n  ":" <!-- <name>x</name> --> "; }
static S el(const char* n,S const& body){ return ws()+"<"+n+">"+body+"</"+n+">"; }
static S elw(const char* n,S const& body){ return ws()+"<"+n+">"+body+ws()+"</"+n+">"; }
static const char* PT[4]={"String","Integer","Float","Boolean"}; static const char* PV[4]={"string","integer","float","boolean"};
// ---- the contents of a description, as text
static S dParam(ConfigurationParameter const& p){ S s=u8(p.getName())+"|"+u8(p.getDescription())+"|"+PT[(int)p.getType()]+"|"+(p.isMultiValued()?"multi":"")+"|"+(p.isMandatory()?"mand":"")+"|"; for(auto& r:p.iv_vecRestrictedToDelegates) s+=u8(r)+","; return s+";"; }
static S fstr(float f){ char b[40]; snprintf(b,40,"%.9g",f); return b; }
static S dNvp(NameValuePair const& n){ S s=u8(n.getName())+"="; int t=n.getType(); if(n.isMultiValued()){ s+="["; if(t==0) for(auto& v:n.extractStringValues()) s+=u8(v)+","; if(t==1) for(int v:n.extractIntValues()) s+=std::to_string(v)+","; if(t==2) for(float v:n.extractFloatValues()) s+=fstr(v)+","; if(t==3) for(bool v:n.extractBoolValues()) s+=v?"true,":"false,"; s+="]"; } else s+=t==0?u8(n.extractStringValue()):t==1?std::to_string(n.extractIntValue()):t==2?fstr(n.extractFloatValue()):n.extractBoolValue()?"true":"false"; return s+":"+PT[t]+";"; }
static S dIndex(FSIndexDescription const& x){ S s=u8(x.getLabel())+"|"+u8(x.getTypeName())+"|"+(x.getIndexKind()==FSIndexDescription::SORTED?"sorted":x.getIndexKind()==FSIndexDescription::SET?"set":"bag")+"|"; for(auto* k:x.getFSIndexKeys()) s+=k->isTypePriority()?S("prio,"):u8(k->getFeatureName())+(k->getComparator()==FSIndexKeyDescription::REVERSE?"-,":"+,"); return s+";"; }
static S dPrio(TypePriority const& p){ S s; for(auto& t:p.getTypeOrder()) s+=u8(t)+">"; return s+";"; }
static S dSofa(SofaMapping const& m){ return u8(m.getComponentKey())+"/"+u8(m.getComponentSofaName())+"->"+u8(m.getAggregateSofaName())+";"; }
static S dType(TypeDescription const& t){ S s=u8(t.getName())+"<"+u8(t.getSuperTypeName())+"|"+u8(t.getDescription())+"|"; for(auto* f:t.getFeatureDescriptions()) s+=u8(f->getName())+":"+u8(f->getRangeTypeName())+"("+u8(f->getElementType())+")"+(f->isMultipleReferencesAllowed()?"*":"")+u8(f->getDescription())+","; s+="|"; for(auto* v:t.getAllowedValues()) s+=u8(v->getName())+"~"+u8(v->getDescription())+","; return s+";"; }
struct Sec { S head,params,sets,types,prio,index,caps,flow,ops,sofa,dels; };
static Sec dump(AnalysisEngineDescription const& d){ Sec x; AnalysisEngineMetaData const& m=*d.getAnalysisEngineMetaData();
  x.head=u8(d.getXmlRootTag())+"|"+(d.isPrimitive()?"p":"a")+"|"+(d.getFrameworkImplName()==AnalysisEngineDescription::JAVA?"java":"cpp")+"|"+u8(d.getAnnotatorImpName())+"|"+u8(m.getName())+"|"+u8(m.getDescription())+"|"+u8(m.getVersion())+"|"+u8(m.getVendor());
  x.params=S(m.getSearchStrategy()==AnalysisEngineMetaData::NONE?"none":m.getSearchStrategy()==AnalysisEngineMetaData::DEFAULT_FALLBACK?"default_fallback":"language_fallback")+"|"+(m.hasDefaultGroup()?u8(m.getDefaultGroupName()):S("-"))+"|"; for(auto& g:m.iv_configurationGroups){ S n=g.first==m.CONFIG_GROUP_NAME_COMMON_PARMS?S("<common>"):g.first==m.CONFIG_GROUP_NAME_WHEN_NO_GROUPS?S("<none>"):u8(g.first); std::set<S> ps; for(auto* p:g.second.getConfigurationParameters()) ps.insert(dParam(*p)); x.params+=n+"{"; for(auto& p:ps) x.params+=p; x.params+="}"; }
  for(auto& g:m.iv_configurationSettings){ S n=g.first==m.CONFIG_GROUP_NAME_WHEN_NO_GROUPS?S("<none>"):u8(g.first); std::set<S> ps; for(auto* p:g.second.getNameValuePairs()) ps.insert(dNvp(*p)); x.sets+=n+"{"; for(auto& p:ps) x.sets+=p; x.sets+="}"; }
  if(m.getTypeSystemDescription()) for(auto* t:m.getTypeSystemDescription()->getTypeDescriptions()) x.types+=dType(*t); else x.types="no type system";
  for(auto* p:m.getTypePriorities()) x.prio+=dPrio(*p); for(auto* p:m.getFSIndexDescriptions()) x.index+=dIndex(*p);
  for(auto* c:m.getCapabilites()){ x.caps+="{"; for(auto& t:c->getCapabilityTypes(Capability::INPUT)) x.caps+="i"+u8(t)+","; for(auto& t:c->getCapabilityFeatures(Capability::INPUT)) x.caps+="fi"+u8(t)+","; for(auto& t:c->getCapabilityTypes(Capability::OUTPUT)) x.caps+="o"+u8(t)+","; for(auto& t:c->getCapabilityFeatures(Capability::OUTPUT)) x.caps+="fo"+u8(t)+","; for(auto& t:c->getCapabilitySofas(Capability::INPUTSOFA)) x.caps+="si"+u8(t)+","; for(auto& t:c->getCapabilitySofas(Capability::OUTPUTSOFA)) x.caps+="so"+u8(t)+","; for(auto& t:c->getSupportedLanguages()) x.caps+="l"+u8(t)+","; x.caps+="}"; }
  if(m.getFlowConstraints()){ FlowConstraints* f=const_cast<FlowConstraints*>(m.getFlowConstraints()); x.flow=f->getFlowConstraintsType()==FlowConstraints::FIXED?"fixed:":"lang:"; for(auto& n:f->getNodes()) x.flow+=u8(n)+","; }
  if(auto* o=m.getOperationalProperties()) x.ops=S(o->getModifiesCas()?"m":"-")+(o->isMultipleDeploymentAllowed()?"d":"-")+(o->getOutputsNewCASes()?"o":"-");
  for(auto* s:d.getSofaMappings()) x.sofa+=dSofa(*s);
  for(auto& e:d.getDelegates()){ Sec y=dump(*e.second); x.dels+=u8(e.first)+"=["+y.head+"#"+y.dels+"#"+y.sofa+"];"; }
  return x; }
// ---- a descriptor
struct Doc { S root="analysisEngineDescription"; bool prim=true; S pre,impl="<annotatorImplementationName>I</annotatorImplementationName>",dels,meta0,params,sets,flow,prio,types,fsix,caps,ops,sofa; bool pretty=true; bool tsd=true;
  S xml() const { bool cc=root=="casConsumerDescription"; S mt=cc?"processingResourceMetaData":"analysisEngineMetaData"; return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<"+root+" xmlns=\"http://uima.apache.org/resourceSpecifier\">"+pre+(cc?S(""):el("primitive",prim?"true":"false"))+impl+dels+ws()+"<"+mt+">"+meta0+params+sets+types+prio+fsix+caps+flow+ops+ws()+"</"+mt+">"+sofa+ws()+"</"+root+">"; } };
static Sec expect(){ Sec x; x.head="analysisEngineDescription|p|cpp|I||||"; x.params="none|-|"; return x; }
static bool same(Sec const& a,Sec const& b){ bool r=a.head==b.head&&a.params==b.params&&a.sets==b.sets&&a.types==b.types&&a.prio==b.prio&&a.index==b.index&&a.caps==b.caps&&a.flow==b.flow&&a.ops==b.ops&&a.sofa==b.sofa&&a.dels==b.dels;
#ifndef SYMX_SYMBOLIC
  if(!r){ const S* p=&a.head; const S* q=&b.head; for(int i=0;i<11;++i) if(p[i]!=q[i]) fprintf(stderr,"section %d: wrote [%s] read [%s]\n",i,p[i].c_str(),q[i].c_str()); }
#endif
  return r; }
static bool parse(AnalysisEngineDescription& d,S const& xml,int how=0){ if(getenv("SYMX_SHOW")) fprintf(stderr,"%s\n",xml.c_str()); return throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; if(how==0) b.buildTaeFromMemory(d,xml.c_str()); else b.buildTaeFromMemory(d,icu::UnicodeString::fromUTF8(xml)); }); }
static int g_how;
static void check(S const& xml,Sec const& w,bool ok=true){ AnalysisEngineDescription d; bool th=parse(d,xml,g_how);
#ifndef DESC_WRITE
  SX_ASSERT(th==!ok,"accepted exactly when settings are for defined parameters and nothing is defined twice"); if(!th){ SX_ASSERT(same(w,dump(d)),"the description read is the one written in the descriptor"); symx_reached("read"); } else symx_reached("refused");
#else
  if(th||!ok) return; (void)w; Sec a=dump(d); icu::UnicodeString out; d.toXMLBuffer(out); AnalysisEngineDescription e; bool th2=parse(e,u8(out)); SX_ASSERT(!th2,"the XML written can be read"); Sec b=dump(e); if(a.ops.empty()&&b.ops=="md-") b.ops=""; SX_ASSERT(same(a,b),"the description read back is the one written"); DESC_REACHED;
#endif
}
static void layout(){ g_ws=sx_choose("ws",3); }
static void heavy(){ g_ws=symx_thorough()?(int)sx_choose("ws",3):2; }
// ---- scenarios
#ifndef DESC_LIB
SYMX_SCENARIO_SETUP(text,setup){ layout(); g_how=sx_choose("how",2); int f=sx_choose("field",6),t=sx_choose("t",NTXT); Txt x=txt(t); const char* tag[4]={"name","description","version","vendor"}; S v[4]; Doc d; for(int i=0;i<4;++i){ bool me=i==f; v[i]=me?x.val:S(tag[i])+"V"; d.meta0+=el(tag[i],me?x.raw:v[i]); } S im="I"; if(f>=4){ im=x.val; d.impl=el(f==4?"annotatorImplementationName":"implementationName",x.raw); } Sec w=expect(); w.head="analysisEngineDescription|p|cpp|"+im+"|"+v[0]+"|"+v[1]+"|"+v[2]+"|"+v[3]; check(d.xml(),w); }
SYMX_SCENARIO_SETUP(head,setup){ layout(); Doc d; const char* roots[3]={"analysisEngineDescription","taeDescription","casConsumerDescription"}; int r=sx_choose("root",3); d.root=roots[r]; int p=r==2?1:sx_choose("prim",2); d.prim=p; int fw=sx_choose("fw",3); if(fw) d.pre=el("frameworkImplementation",fw==1?"org.apache.uima.cpp":" org.apache.uima.java "); int im=sx_choose("impl",3); d.impl=im==0?S(""):el(im==1?"annotatorImplementationName":"implementationName","Impl"); unsigned pr=0; const char* tag[4]={"name","description","version","vendor"}; S h; for(int i=0;i<4;++i){ bool has=sx_choose(nm("has",i),2); if(has) d.meta0+=el(tag[i],tag[i]); h+=S("|")+(has?tag[i]:""); }
#ifdef DESC_WRITE
  if(!p){ d.flow=el("flowConstraints","<fixedFlow><node>a</node></fixedFlow>"); d.impl=""; im=0; }
#endif
  Sec w=expect(); if(!d.flow.empty()) w.flow="fixed:a,"; w.head=S(roots[r])+"|"+(p?"p":"a")+"|"+(fw==2?"java":"cpp")+"|"+(im?"Impl":"")+h; check(d.xml(),w); }
// parameters
static S gParam(S const& name,int t,bool mu,bool ma,int re,S& out){ static const char* rx[3]={""," k1 ","k1  k2"}; static const char* rv[3]={"","k1,","k1,k2,"}; out=name+"|d "+name+"|"+PT[t]+"|"+(mu?"multi":"")+"|"+(ma?"mand":"")+"|"+rv[re]+";"; return elw("configurationParameter",el("name",name)+el("description","d "+name)+el("type",PT[t])+el("multiValued",mu?"true":"false")+el("mandatory",ma?" true ":"false")+(re?el("restrictOverrideTo",rx[re]):S(""))); }
static void params(int n){ if(n==1) layout(); else heavy(); Doc d; int at=sx_choose("attr",n==1||symx_thorough()?8:3),strat=n==1||symx_thorough()?at>>1:at,dg=at&1; static const char* ST[4]={"none","none","default_fallback","language_fallback"}; S attr; if(dg) attr+=" defaultGroup=\"g\""; if(strat) attr+=S(" searchStrategy=\"")+ST[strat]+"\""; std::map<S,std::set<S>> g; std::map<S,std::set<S>> names; bool ok=true; S common,none,groups; bool anyNone=false,anyGroup=false,named=false;
  for(int i=0;i<n;++i){ int t=sx_choose(nm("t",i),n==1||symx_thorough()?4:2),fl=n==1?sx_choose(nm("fl",i),12):sx_choose(nm("fl",i),2)*11; int pl=sx_choose(nm("pl",i),6); S nme=n==2&&i==1&&sx_choose("dup",2)?"p0":nm("p",i); S e; S x=gParam(nme,t,fl&1,fl>>1&1,fl>>2,e); std::vector<S> in; if(pl==0){ none+=x; in.push_back("<none>"); anyNone=true; } else if(pl==1){ common+=x; in.push_back("<common>"); anyGroup=true; } else { S nms=pl==2?"g":pl==3?"g  h":pl==4?" a-b ":"e&amp;f"; S gn=pl==5?"e&f":pl==4?"a-b":"g"; bool dupg=g.count(gn)||(pl==3&&g.count("h")); if(dupg) ok=false; groups+=ws()+"<configurationGroup names=\""+nms+"\">"+x+ws()+"</configurationGroup>"; in.push_back(gn); if(pl==3) in.push_back("h"); anyGroup=true; named=true; }
    for(auto& k:in){ if(names[k].count(nme)) ok=false; g[k]; } // duplicates below
    for(auto& k:in){ g[k].insert(e); names[k].insert(nme); } }
  // written in the order common, groups, none: a parameter of a group may not be named like a common one
  for(auto& k:names) if(k.first!="<common>"&&names.count("<common>")) for(auto& q:k.second) if(names["<common>"].count(q)) ok=false;
#ifdef DESC_WRITE
  if(anyNone&&anyGroup) return;
#endif
  (void)named; d.params=ws()+"<configurationParameters"+attr+">"+(common.empty()?S(""):elw("commonParameters",common))+groups+none+ws()+"</configurationParameters>"; Sec w=expect(); w.params=S(ST[strat])+"|"+(dg?"g":"-")+"|"; std::map<S,S> ord; for(auto& k:g) ord[k.first=="<common>"?S("CONFIG_GROUP_NAME_COMMON_PARAMETERS"):k.first=="<none>"?S("CONFIG_GROUP_NAME_WHEN_NO_GROUPS"):k.first]=k.first; for(auto& k:ord){ w.params+=k.second+"{"; for(auto& p:g[k.second]) w.params+=p; w.params+="}"; }
#ifdef DESC_WRITE
  if(!anyGroup&&(dg||strat>1)) return;   // attributes that mean nothing without groups
#endif
  check(d.xml(),w,ok); }
SYMX_SCENARIO_SETUP(params_one,setup){ params(1); }
SYMX_SCENARIO_SETUP(params_two,setup){ params(2); }
// settings: parameters p0..p3 (one per type, single) and m0..m3 (multi) without groups, or common with groups g and h
static const char* VR[4][3]={{"plain"," x&lt;y ",""},{"17"," -3 ","2147483647"},{"1.5","-2.25e-7","3.4e38"},{"true","false"," true "}}; static S vv(int t,int i){ static const float F[3]={1.5f,-2.25e-7f,3.4e38f}; static const char* V[4][3]={{"plain","x<y",""},{"17","-3","2147483647"},{"","",""},{"true","false","true"}}; return t==2?fstr(F[i]):V[t][i]; }
static void settings(int n,bool grp){ if(n==1) layout(); else heavy(); Doc d; S ps; for(int t=0;t<4;++t){ S e; ps+=gParam(nm("p",t),t,false,false,0,e)+gParam(nm("m",t),t,true,false,0,e); } d.params=grp?"<configurationParameters><commonParameters>"+ps+"</commonParameters><configurationGroup names=\"g h\"/></configurationParameters>":"<configurationParameters>"+ps+"</configurationParameters>"; std::map<S,std::map<S,S>> out; bool ok=true; S body; 
  for(int i=0;i<n;++i){ int t=sx_choose(nm("t",i),4); int form=sx_choose(nm("form",i),n==1?4:3); /* 0 single, 1..3 arrays of 1, 2, 0 values */ int v=grp&&!symx_thorough()?i:(int)sx_choose(nm("v",i),3); bool undef=n==1&&sx_choose("undef",2); S name=undef?"q":form==0?nm("p",t):nm("m",t); S x,e; if(form==0){ x=el(PV[t],VR[t][v]); e=vv(t,v); } else { int k=form==3?0:form; for(int j=0;j<k;++j){ int q=(v+j)%3; x+=el(PV[t],VR[t][q]); e+=vv(t,q)+","; } x=elw("array",x); e="["+e+"]"; } S one=elw("nameValuePair",el("name",name)+el("value",x+ws())); if(undef) ok=false; e=name+"="+e+":"+PT[t]+";"; std::vector<S> in; if(grp){ int w=sx_choose(nm("grp",i),3); body+=ws()+"<settingsForGroup name=\""+(w==0?"g":w==1?" h ":"g  h")+"\">"+one+"</settingsForGroup>"; if(w!=1) in.push_back("g"); if(w!=0) in.push_back("h"); } else { body+=one; in.push_back("<none>"); } for(auto& k:in){ if(out[k].count(name)) ok=false; out[k][name]=e; } }
  d.sets=elw("configurationParameterSettings",body); AnalysisEngineDescription q; { Doc d0; d0.params=d.params; if(parse(q,d0.xml())) abort(); } Sec w=expect(); w.params=dump(q).params; for(auto& k:out){ w.sets+=k.first+"{"; std::set<S> s; for(auto& p:k.second) s.insert(p.second); for(auto& p:s) w.sets+=p; w.sets+="}"; }
  check(d.xml(),w,ok); }
SYMX_SCENARIO_SETUP(settings_one,setup){ settings(1,false); }
SYMX_SCENARIO_SETUP(settings_two,setup){ settings(2,false); }
SYMX_SCENARIO_SETUP(settings_groups,setup){ settings(2,true); }
// types
SYMX_SCENARIO_SETUP(types,setup){ layout(); Doc d; Sec w=expect(); S body; int n=sx_choose("n",2)+1; for(int i=0;i<n;++i){ int kind=sx_choose(nm("kind",i),3); S sup=kind==2?"uima.cas.String":kind==1?"uima.tcas.Annotation":"uima.cas.TOP"; S x=el("name",nm("d.T",i))+el("description","de &amp; sc")+el("supertypeName"," "+sup+" "),e=S(nm("d.T",i))+"<"+sup+"|de & sc|"; int k=i==0?sx_choose(nm("k",i),3):1; S sub; if(kind<2){ for(int j=0;j<k;++j){ int f=i==0?sx_choose(nm("f",j),8):5; bool mu=f&1,mf=f>>1&1,et=f>>2; S fx=el("name",nm("f",j))+el("description","fd")+el("rangeTypeName",et?"uima.cas.FSArray":"uima.cas.Integer"); if(et) fx+=el("elementType","d.T0"); if(mu||mf) fx+=el("multipleReferencesAllowed",mu?" true":"false"); sub+=elw("featureDescription",fx); e+=S(nm("f",j))+":"+(et?"uima.cas.FSArray(d.T0)":"uima.cas.Integer()")+(mu?"*":"")+"fd,"; } if(k||sx_choose(nm("em",i),2)) x+=elw("features",sub); e+="|"; } else { e+="|"; for(int j=0;j<k;++j){ static const int VT[4]={0,2,3,4}; Txt t=txt(i==0?VT[sx_choose(nm("v",j),4)]:0); S val=t.val+nm("",j); sub+=elw("value",el("string",t.raw+(t.val.empty()?"":"")+nm("",j))+el("description"," vd ")); e+=val+"~vd,"; } x+=elw("allowedValues",sub); } body+=elw("typeDescription",x); w.types+=e+";"; }
  d.types=elw("typeSystemDescription",elw("types",body)); check(d.xml(),w); }
// files
struct Dir { S p; Dir(){ char b[]="/tmp/symxE02XXXXXX"; if(!mkdtemp(b)) abort(); p=b; } std::vector<S> f; void put(S const& n,S const& x){ S q=p+"/"+n; FILE* h=fopen(q.c_str(),"w"); if(!h||fwrite(x.data(),1,x.size(),h)!=x.size()) abort(); fclose(h); f.push_back(q); } ~Dir(){ for(auto& q:f) unlink(q.c_str()); rmdir(p.c_str()); } };
static const S XH="<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", XN=" xmlns=\"http://uima.apache.org/resourceSpecifier\"";
static void checkFile(Dir& dir,S const& name,Sec const& w){ AnalysisEngineDescription d; bool th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildTaeFromFile(d,(dir.p+"/"+name).c_str()); }); SX_ASSERT(!th,"read"); SX_ASSERT(same(w,dump(d)),"the description read is the one written in the descriptor and its imports"); symx_reached("files"); }
#define FOLD(i,x) (S("f")+(char)('0'+(i))+(x))
SYMX_SCENARIO_SETUP(priorities,setup){ layout(); Doc d; Sec w=expect(); S body; int n=sx_choose("n",3); for(int i=0;i<n;++i){ int k=sx_choose(nm("k",i),3); S l; for(int j=0;j<k;++j){ int t=sx_choose(nm("t",i*2+j),3); S ty=nm("d.T",t); l+=el("type",j?" "+ty+"\n":ty); w.prio+=ty+">"; } w.prio+=";"; body+=elw("priorityList",l); } d.prio=elw("typePriorities",body); check(d.xml(),w); }
static S prioOne(int i){ return "<priorityList><type>d.T"+S(1,(char)('0'+i))+"</type></priorityList>"; }
static S indexOne(int i,S& e){ S l=nm("ix",i); e=l+"|uima.tcas.Annotation|set|begin+,;"; return "<fsIndexDescription><label>"+l+"</label><typeName>uima.tcas.Annotation</typeName><kind>set</kind><keys><fsIndexKey><featureName>begin</featureName><comparator>standard</comparator></fsIndexKey></keys></fsIndexDescription>"; }
#ifndef DESC_WRITE
static void imports(bool prio){ heavy(); Dir dir; unsigned imp[4]; static const unsigned QM[4][4]={{0,0,0,0},{0,2,4,7},{0,1,4,7},{0,1,2,7}}; for(int i=0;i<4;++i) imp[i]=i==0||symx_thorough()?(unsigned)sx_choose(nm("imp",i),8):QM[i][sx_choose(nm("imp",i),4)]; int after=sx_choose("after",2); const char* tag=prio?"typePriorities":"fsIndexCollection"; Doc d; S own[4]; Sec w=expect(); 
  S xml[4],e[4]; for(int i=0;i<4;++i){ S im; for(int j=0;j<3;++j) if(imp[i]>>j&1) im+=ws()+"<import location=\""+(j==2?"sub/":"")+FOLD(j+1,".xml")+"\"/>"; if(i==3){ im=""; for(int j=0;j<3;++j) if(imp[i]>>j&1) im+=ws()+"<import location=\""+(j==2?"":"../")+FOLD(j+1,".xml")+"\"/>"; } im=im.empty()?S(""):elw("imports",im); S o=prio?prioOne(i):elw("fsIndexes",indexOne(i,e[i])); if(prio) e[i]=S(nm("d.T",i))+">;"; xml[i]=after?o+im:im+o; }
  if(mkdir((dir.p+"/sub").c_str(),0700)) abort(); for(int i=1;i<4;++i) dir.put(i==3?S("sub/f3.xml"):FOLD(i,".xml"),XH+"<"+tag+XN+">"+xml[i]+"</"+tag+">"); (prio?d.prio:d.fsix)=elw(tag,xml[0]); dir.put("ae.xml",d.xml()); dir.f.push_back("");
  // oracle: each file once, depth first, in the order of the text
  S out; bool seen[4]={false,false,false,false}; std::function<void(int)> go=[&](int i){ if(!after) for(int j=0;j<3;++j) if(imp[i]>>j&1) if(!seen[j+1]){ seen[j+1]=true; go(j+1); } out+=e[i]; if(after) for(int j=0;j<3;++j) if(imp[i]>>j&1) if(!seen[j+1]){ seen[j+1]=true; go(j+1); } }; go(0); (prio?w.prio:w.index)=out;
  struct Rm { S p; ~Rm(){ unlink((p+"/sub/f3.xml").c_str()); rmdir((p+"/sub").c_str()); } } rm{dir.p}; checkFile(dir,"ae.xml",w); }
SYMX_SCENARIO_SETUP(priority_imports,setup){ imports(true); }
SYMX_SCENARIO_SETUP(index_imports,setup){ imports(false); }
#endif
static S gIndex(int i,S& e,int keysMax){ int kind=sx_choose(nm("kind",i),4); static const char* K[4]={"sorted","set","bag",""}; static const char* KE[4]={"sorted","set","bag","sorted"}; int k=sx_choose(nm("nk",i),keysMax+1); S ks; e=S(nm("ix",i))+"|uima.tcas.Annotation|"+KE[kind]+"|"; for(int j=0;j<k;++j){ int f=sx_choose(nm("key",i*2+j),4); ks+=elw("fsIndexKey",f==3?ws()+"<typePriority/>":el("featureName",nm(" f",j))+(f==0?S(""):el("comparator",f==1?" standard ":"reverse"))); e+=f==3?S("prio,"):S(nm("f",j))+(f==2?"-,":"+,"); } e+=";"; return elw("fsIndexDescription",el("label",S(nm("ix",i))+" ")+el("typeName","uima.tcas.Annotation")+(kind<3?el("kind",K[kind]):S(""))+(k?elw("keys",ks):S(""))); }
SYMX_SCENARIO_SETUP(indexes,setup){ layout(); Doc d; Sec w=expect(); int coll=sx_choose("coll",2),n=sx_choose("n",2)+1; S b; for(int i=0;i<n;++i){ S e; b+=gIndex(i,e,n==1?2:1); w.index+=e; } b=elw("fsIndexes",b); d.fsix=coll?elw("fsIndexCollection",b):b; check(d.xml(),w); }
// capabilities: types d.T0 (features f0, f1) described before, d.T1 not described
SYMX_SCENARIO_SETUP(capabilities,setup){ heavy(); Doc d; Sec w=expect(); int nf=sx_choose("nf",3); S fs,te; for(int j=0;j<nf;++j){ fs+=elw("featureDescription",el("name",nm("f",j))+el("description","x")+el("rangeTypeName","uima.cas.Integer")); te+=S(nm("f",j))+":uima.cas.Integer()x,"; } d.types=elw("typeSystemDescription",elw("types",elw("typeDescription",el("name","d.T0")+el("description","t")+el("supertypeName","uima.cas.TOP")+elw("features",fs)))); w.types="d.T0<uima.cas.TOP|t|"+te+"|;"; int nc=sx_choose("nc",2)+1; S body; for(int c=0;c<nc;++c){ S x; S ti[2],fi[2],si[2],la; for(int io=0;io<2;++io){ int m=c==0?sx_choose(nm("m",io),6):3; S y; 
      if(m==1||m==3){ y+=el("type"," d.T0 "); ti[io]+=S(io?"o":"i")+"d.T0,"; } if(m==2||m==3){ y+=ws()+"<type allAnnotatorFeatures=\"true\">d.T0</type>"; ti[io]+=S(io?"o":"i")+"d.T0,"; for(int j=0;j<nf;++j) fi[io]+=S(io?"fo":"fi")+"d.T0:"+nm("f",j)+","; } if(m==4){ y+=ws()+"<type allAnnotatorFeatures=\"true\">d.T1</type>"+ws()+"<type allAnnotatorFeatures=\"false\">d.T0</type>"; ti[io]+=S(io?"o":"i")+"d.T1,"+(io?"o":"i")+"d.T0,"; } if(m==5||m==3){ y+=el("feature","d.T1:g"); fi[io]+=S(io?"fo":"fi")+"d.T1:g,"; } x+=elw(io?"outputs":"inputs",y); }
    int sm=c==0?sx_choose("sm",4):0; if(sm&1){ x+=elw("inputSofas",el("sofaName","s1")+el("sofaName"," s2 ")); si[0]="sis1,sis2,"; } if(sm&2){ x+=elw("outputSofas",el("sofaName","s3")); si[1]="sos3,"; } int lm=c==0?sx_choose("lm",3):1; S ls; if(lm>=1){ ls+=el("language","en"); la+="len,"; } if(lm==2){ ls+=el("language"," x-unspecified"); la+="lx-unspecified,"; } x+=elw("languagesSupported",ls); w.caps+="{"+ti[0]+fi[0]+ti[1]+fi[1]+si[0]+si[1]+la+"}"; body+=elw("capability",x); }
  d.caps=elw("capabilities",body); check(d.xml(),w); }
SYMX_SCENARIO_SETUP(flow,setup){ heavy(); Doc d; Sec w=expect(); int kind=sx_choose("kind",3); if(kind){ d.prim=false; d.impl=""; w.head="analysisEngineDescription|a|cpp|||||"; int n=sx_choose("n",3)+1; S b; w.flow=kind==1?"fixed:":"lang:"; for(int i=0;i<n;++i){ int k=sx_choose(nm("k",i),3); b+=el("node",i?S(" ")+nm("k",k)+" ":S(nm("k",k))); w.flow+=S(nm("k",k))+","; } d.flow=elw("flowConstraints",elw(kind==1?"fixedFlow":"capabilityLanguageFlow",b)); }
  int o=sx_choose("ops",9); if(o<8){ S b; const char* t[3]={"modifiesCas","multipleDeploymentAllowed","outputsNewCASes"}; for(int i=0;i<3;++i) b+=el(t[i],o>>i&1?"true":" false"); d.ops=elw("operationalProperties",b); w.ops=S(o&1?"m":"-")+(o&2?"d":"-")+(o&4?"o":"-"); }
  int ns=sx_choose("ns",symx_thorough()?3:2); S sb; for(int i=0;i<ns;++i){ int f=sx_choose(nm("sf",i),2); sb+=elw("sofaMapping",el("componentKey",nm("k",i))+(f?el("componentSofaName"," c "):S(""))+el("aggregateSofaName",nm("a",i))); w.sofa+=S(nm("k",i))+"/"+(f?"c":"")+"->"+nm("a",i)+";"; } if(ns) d.sofa=elw("sofaMappings",sb); check(d.xml(),w); }
// delegates: 2, each inline (3 root kinds) or imported from a file next to it or below it; the second may itself be an aggregate with a delegate
#ifndef DESC_WRITE
SYMX_SCENARIO_SETUP(delegates,setup){ layout(); Dir dir; if(mkdir((dir.p+"/sub").c_str(),0700)) abort(); struct Rm { S p; ~Rm(){ for(int i=0;i<3;++i) unlink((p+"/sub/"+FOLD(i,".xml")).c_str()); rmdir((p+"/sub").c_str()); } } rm{dir.p}; static const char* roots[3]={"analysisEngineDescription","taeDescription","casConsumerDescription"}; Doc d; Sec w=expect(); S body,dels; int n=sx_choose("n",2)+1; for(int i=0;i<n;++i){ int r=sx_choose(nm("r",i),3),how=sx_choose(nm("how",i),3); bool nest=r!=2&&sx_choose(nm("nest",i),2); Doc c; c.root=roots[r]; c.prim=!nest; c.meta0=el("name",nm("D",i)); S inner; if(nest){ int nh=sx_choose(nm("nh",i),2); Doc z; z.meta0=el("name","Z"); S zx=z.xml(); zx=zx.substr(zx.find('\n')+1); if(nh){ FILE* h=fopen((dir.p+"/sub/f2.xml").c_str(),"w"); S full=z.xml(); if(!h||fwrite(full.data(),1,full.size(),h)!=full.size()) abort(); fclose(h); zx=S("<import location=\"")+(how==2?"":"sub/")+"f2.xml\"/>"; } c.impl=""; c.dels=elw("delegateAnalysisEngineSpecifiers",ws()+"<delegateAnalysisEngine key=\"z\">"+zx+"</delegateAnalysisEngine>"); inner="z=[analysisEngineDescription|p|cpp|I|Z|||##];"; }
    S cx=c.xml(); S x; if(how==0) x=cx.substr(cx.find('\n')+1); else { S fn=S(how==2?"sub/":"")+FOLD(i,".xml"); if(how==1) dir.put(fn,cx); else { FILE* h=fopen((dir.p+"/"+fn).c_str(),"w"); if(!h||fwrite(cx.data(),1,cx.size(),h)!=cx.size()) abort(); fclose(h); } x="<import location=\""+fn+"\"/>"; } body+=ws()+"<delegateAnalysisEngine key=\""+nm("k",i)+"\">"+ws()+x+ws()+"</delegateAnalysisEngine>"; dels+=S(nm("k",i))+"=["+roots[r]+"|"+(nest?"a":"p")+"|cpp|"+(nest?"":"I")+"|"+nm("D",i)+"|||#"+inner+"#];"; }
  d.prim=false; d.impl=""; d.dels=elw("delegateAnalysisEngineSpecifiers",body); w.head="analysisEngineDescription|a|cpp|||||"; w.dels=dels; dir.put("ae.xml",d.xml()); checkFile(dir,"ae.xml",w); }
// the separate descriptions: index collections, priorities, sofa mappings given on their own
SYMX_SCENARIO_SETUP(standalone,setup){ layout(); int what=sx_choose("what",3); S body,e; if(what==0){ int n=sx_choose("n",3); for(int i=0;i<n;++i){ S q; body+=gIndex(i,q,1); e+=q; } int coll=sx_choose("coll",3); body=elw("fsIndexes",body); if(coll){ if(coll==2) body=el("name","n")+el("description","fsIndexes")+body; body="<fsIndexCollection"+XN+">"+body+"</fsIndexCollection>"; } AnalysisEngineMetaData::TyVecpFSIndexDescriptions v; S got; bool th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v,icu::UnicodeString::fromUTF8(body)); }); for(auto* x:v) got+=dIndex(*x); SX_ASSERT(!th&&got==e,"the indexes read are the ones written"); 
    icu::UnicodeString out; { TextAnalysisEngineSpecifierBuilder b; b.appendToXMLBuffer(v,out); } AnalysisEngineMetaData::TyVecpFSIndexDescriptions v2; th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v2,out); }); got=""; for(auto* x:v2) got+=dIndex(*x); SX_ASSERT(!th&&got==e,"and survive being written"); symx_reached("indexes"); }
  else if(what==1){ int n=sx_choose("n",2)+1; for(int i=0;i<n;++i){ int k=sx_choose(nm("k",i),3); S l; for(int j=0;j<k;++j){ S ty=nm("d.T",sx_choose(nm("t",i*2+j),2)); l+=el("type"," "+ty); e+=ty+">"; } e+=";"; body+=elw("priorityList",l); } body="<typePriorities"+XN+">"+body+"</typePriorities>"; AnalysisEngineMetaData::TyVecpTypePriorities v; S got; bool th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v,icu::UnicodeString::fromUTF8(body)); }); for(auto* x:v) got+=dPrio(*x); SX_ASSERT(!th&&got==e,"the priorities read are the ones written"); icu::UnicodeString out; { TextAnalysisEngineSpecifierBuilder b; b.appendToXMLBuffer(v,out); } AnalysisEngineMetaData::TyVecpTypePriorities v2; th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v2,out); }); got=""; for(auto* x:v2) got+=dPrio(*x); SX_ASSERT(!th&&got==e,"and survive being written"); symx_reached("priorities"); }
  else { int n=sx_choose("n",2)+1; for(int i=0;i<n;++i){ Txt t=txt(sx_choose(nm("x",i),4)); int f=sx_choose(nm("f",i),3); S v[3]={nm("k",i),"c",nm("a",i)},r[3]={v[0],v[1],v[2]}; v[f]=t.val; r[f]=t.raw; body+=elw("sofaMapping",el("componentKey",r[0])+el("componentSofaName",r[1])+el("aggregateSofaName",r[2])); e+=v[0]+"/"+v[1]+"->"+v[2]+";"; } body="<sofaMappings"+XN+">"+body+"</sofaMappings>"; AnalysisEngineDescription::TyVecpSofaMappings v; S got; bool th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v,icu::UnicodeString::fromUTF8(body)); }); for(auto* x:v) got+=dSofa(*x); SX_ASSERT(!th&&got==e,"the mappings read are the ones written"); icu::UnicodeString out; { TextAnalysisEngineSpecifierBuilder b; b.appendToXMLBuffer(v,out); } AnalysisEngineDescription::TyVecpSofaMappings v2; th=throwsUima([&]{ TextAnalysisEngineSpecifierBuilder b; b.buildFromXMLBuffer(v2,out); }); got=""; for(auto* x:v2) got+=dSofa(*x); SX_ASSERT(!th&&got==e,"and survive being written"); symx_reached("mappings"); } }
#else
SYMX_SCENARIO_SETUP(written_text,setup){ layout(); Txt t=txt(sx_choose("t",NTXT)); int f=sx_choose("f",16); auto R=[&](int i,const char* s){ return i==f?(t.raw.empty()?S(s):t.raw):S(s); }; Doc d; d.prim=f<10; if(!d.prim) d.impl=""; d.params=elw("configurationParameters",elw("configurationParameter",el("name",R(0,"p"))+el("description",R(1,"pd"))+el("type","String"))); d.sets=elw("configurationParameterSettings",elw("nameValuePair",el("name",R(0,"p"))+el("value",el("string",R(2,"pv"))))); d.types=elw("typeSystemDescription",elw("types",elw("typeDescription",el("name",R(3,"d.T"))+el("description",R(4,"td"))+el("supertypeName","uima.cas.String")+elw("allowedValues",elw("value",el("string",R(5,"av"))+el("description",R(6,"ad")))))+elw("typeDescription",el("name","d.U")+el("supertypeName","uima.cas.TOP")+elw("features",elw("featureDescription",el("name",R(7,"f"))+el("description",R(8,"fd"))+el("rangeTypeName",R(9,"r"))))))); d.prio=elw("typePriorities",elw("priorityList",el("type",R(15,"d.T")))); d.fsix=elw("fsIndexes",elw("fsIndexDescription",el("label",R(10,"l"))+el("typeName",R(11,"x"))+el("kind","bag"))); d.caps=elw("capabilities",elw("capability",elw("inputs",el("type",R(12,"y"))+el("feature",R(13,"y:f")))+elw("outputs","")+elw("inputSofas",el("sofaName",R(14,"s")))+elw("languagesSupported",el("language",R(14,"en"))))); if(!d.prim) d.flow=elw("flowConstraints",elw("fixedFlow",el("node",R(13,"n")))); d.sofa=elw("sofaMappings",elw("sofaMapping",el("componentKey",R(10,"k"))+el("componentSofaName",R(11,"c"))+el("aggregateSofaName",R(12,"a")))); check(d.xml(),expect()); }
SYMX_SCENARIO_SETUP(nested,setup){ layout(); static const char* roots[3]={"analysisEngineDescription","taeDescription","casConsumerDescription"}; Doc d; S body; int n=sx_choose("n",2)+1; for(int i=0;i<n;++i){ int r=sx_choose(nm("r",i),3); bool nest=r!=2&&sx_choose(nm("nest",i),2); Doc c; c.root=roots[r]; c.prim=!nest; c.meta0=el("name",nm("D",i)); if(nest){ Doc z; z.meta0=el("name","Z"); S zx=z.xml(); zx=zx.substr(zx.find('\n')+1); c.impl=""; c.flow=elw("flowConstraints",elw("fixedFlow",el("node","z"))); c.dels=elw("delegateAnalysisEngineSpecifiers",ws()+"<delegateAnalysisEngine key=\"z\">"+zx+"</delegateAnalysisEngine>"); } S cx=c.xml(); body+=ws()+"<delegateAnalysisEngine key=\""+(sx_choose(nm("ky",i),2)?S("a&amp;")+nm("k",i):S(nm("k",i)))+"\">"+ws()+cx.substr(cx.find('\n')+1)+ws()+"</delegateAnalysisEngine>"; } d.prim=false; d.impl=""; if(sx_choose("flow",2)) d.flow=elw("flowConstraints",elw("capabilityLanguageFlow",el("node","k0"))); d.dels=elw("delegateAnalysisEngineSpecifiers",body); check(d.xml(),expect()); }
#endif
#endif
