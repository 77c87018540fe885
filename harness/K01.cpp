// K01: result specifications and capability look-up.
// BOUND: result specification: every sequence of up to 3 (thorough 5) add, remove and clear operations over every type and feature number of the type system (symbolic), queried for a symbolic type or feature
// BOUND: capabilities: up to 2 (thorough 3) capabilities, each for the unspecified language (either spelling), a language or a language with territory (of two languages and two territories), declaring every listed combination of inputs and outputs; queried for the unspecified language, every language and every language with territory (first letters symbolic)
// BOUND: result specifications of up to 140 types and features added in three orders with repetitions and removals; capabilities for 13 languages and the unspecified one (any of them missing) with four types each, queried for nine languages
// BOUND: capabilities with 9 or 55 types and features in one, a few or many declarations
// OUTSIDE: capabilities naming more than one language at once beyond the scenario that does so for one of them, unknown types and features (reported, see E01), parsing of the descriptor
#include "cascommon.hpp"
#include <uima/result_specification.hpp>
#include <uima/internal_capability_container.hpp>
#include <uima/capability.hpp>
typedef uima::internal::CapabilityContainer CC;
static ll::TyFSType tMax; static ll::TyFSFeature fMax;
static void setup(){ hSetup(full::types,[](HDef&){}); std::vector<ll::TyFSType> v; g_def->ts().getAllTypes(v); for(auto t:v) if(t>tMax) tMax=t; std::vector<ll::TyFSFeature> w; g_def->ts().getAllFeatures(w); for(auto f:w) if(f>fMax) fMax=f; }
struct Tof { bool isF; int id; TypeOrFeature t; };
static Tof mkTof(const char* n,int i){ Tof x; x.isF=sx_choose(nm(n,i,"k"),2)!=0; x.id=sx_range(nm(n,i,"id"),1,x.isF?(int)fMax:(int)tMax); x.t=x.isF?TypeOrFeature(hF((ll::TyFSFeature)x.id)):TypeOrFeature(hT((ll::TyFSType)x.id)); return x; }
SYMX_SCENARIO_SETUP(spec,setup){
  int n=sx_choose("n",symx_thorough()?6:4); ResultSpecification rs; Tof q=mkTof("q",0); unsigned in=0; Tof x[8]; unsigned live[8];
  for(int i=0;i<n;++i){ int op=sx_choose(nm("op",i),i==0?1:3); live[i]=0;
    if(op==2){ rs.clear(); in=0; for(int j=0;j<i;++j) live[j]=0; x[i]=q; continue; }
    x[i]=mkTof("t",i); unsigned eq=(x[i].isF==q.isF)&(unsigned)(x[i].id==q.id);
    if(op==0){ rs.add(x[i].t); in|=eq; live[i]=1; for(int j=0;j<i;++j) live[j]&=1u^(unsigned)((x[j].isF==x[i].isF)&(x[j].id==x[i].id)); }
    else { rs.remove(x[i].t); in&=1u^eq; for(int j=0;j<i;++j) live[j]&=1u^(unsigned)((x[j].isF==x[i].isF)&(x[j].id==x[i].id)); symx_reached("removed"); }
    }
  SX_ASSERT((unsigned)rs.contains(q.t)==in,"contains exactly what was added and not removed"); SX_ASSERT((unsigned)rs.shouldBeCreatedByAnnotator(q.t)==in,"annotator is asked for exactly these");
  unsigned c=0; for(int i=0;i<n;++i) c+=live[i]; SX_ASSERT((unsigned)rs.getSize()==c,"size"); ResultSpecification cp=rs; cp.remove(q.t); SX_ASSERT(!cp.contains(q.t),"removed from the copy"); SX_ASSERT((unsigned)rs.contains(q.t)==in,"copies are independent");
  symx_observe(rs.getSize());
}
SYMX_SCENARIO_SETUP(order,setup){ Tof a=mkTof("a",0),b=mkTof("b",0),c=mkTof("c",0); bool eq=(a.isF==b.isF)&(a.id==b.id); SX_ASSERT((a.t==b.t)==eq,"equality"); SX_ASSERT(!(a.t<a.t),"irreflexive"); bool l1=a.t<b.t,l2=b.t<a.t; SX_ASSERT((l1^l2)==!eq,"total"); bool l3=b.t<c.t; if(l1&l3) SX_ASSERT(a.t<c.t,"transitive"); SX_ASSERT(a.t.isType()==!a.isF,"kind"); }
// capabilities
struct L { int kind; unsigned num; };   // 0 unspecified, 1 ll, 2 ll-cc
static unsigned lower(const char* n,int i,const char* q){ if(n[0]=='q'){ unsigned c=sx_u8(nm(n,i,q))^'e'; symx_assume(c-'a'<26u); return c; } return 'd'+(unsigned)sx_choose(nm(n,i,q),2); }
static L mkL(const char* n,int i,icu::UnicodeString& txt,bool plain){ L l; l.kind=sx_choose(nm(n,i,"k"),plain?3:4); l.num=0; 
  if(l.kind==0){ txt=US("x-unspecified"); return l; } if(l.kind==3){ txt=US(""); l.kind=0; return l; }
  char16_t b[5]; unsigned c0=lower(n,i,"l"); b[0]=(char16_t)c0; b[1]='n'; l.num=c0<<24|(unsigned)'n'<<16; int len=2; if(l.kind==2){ unsigned c1=lower(n,i,"t"); b[2]='-'; b[3]=(char16_t)c1; b[4]='s'; l.num|=c1<<8|(unsigned)'s'; len=5; } txt=icu::UnicodeString(b,len); return l; }
static unsigned sel(unsigned c,unsigned v){ return (0u-c)&v; }
struct Cap { L l[2]; int nl; unsigned out,inp; };
static void caps(int nc,int maxl){
  static const char* T[3]={"T.A","T.B","T.A:i"}; TypeOrFeature tof[3]={TypeOrFeature(hT(full::A)),TypeOrFeature(hT(full::B)),TypeOrFeature(hF(full::i))};
  Capability* v[3]; std::vector<Capability*> vec; Cap c[3]; static const unsigned OM[4]={0,1,6,3},IM[2]={0,2};
  L e[6]; unsigned eo[6],ei[6]; int ne=0;
  for(int i=0;i<nc;++i){ v[i]=new Capability(); c[i].nl=1+(maxl>1&&i==0?sx_choose("nl",2):0); c[i].out=OM[sx_choose(nm("o",i),i==0?2:3)]; c[i].inp=IM[i==0||symx_thorough()?sx_choose(nm("in",i),2):0];
    for(int k=0;k<c[i].nl;++k){ icu::UnicodeString t; c[i].l[k]=mkL("c",i*2+k,t,i||k); v[i]->addSupportedLanguage(t); e[ne]=c[i].l[k]; eo[ne]=c[i].out; ei[ne]=c[i].inp; ++ne; }
    for(int k=0;k<3;++k){ if(c[i].out>>k&1){ if(k==2) v[i]->addCapabilityFeature(US(T[k]),Capability::OUTPUT); else v[i]->addCapabilityType(US(T[k]),Capability::OUTPUT); } if(c[i].inp>>k&1) v[i]->addCapabilityType(US(T[k]),Capability::INPUT); }
    vec.push_back(v[i]); }
  icu::UnicodeString qt; L q=mkL("q",0,qt,true); if(q.kind==0) qt=US(""); Language lang(qt);
  CC cc; cc.init(vec,g_cas->getTypeSystem());
  // the declared meaning
  unsigned want[2];
  for(int w=0;w<2;++w){ unsigned* m=w?ei:eo; unsigned un=0,unNamed=0; for(int j=0;j<ne;++j) if(e[j].kind==0){ un|=m[j]; unNamed=1; }
    unsigned ext[6]; for(int j=0;j<ne;++j){ unsigned b=0; for(int k=0;k<ne;++k) if(e[k].kind==e[j].kind) b|=sel(e[k].num==e[j].num,m[k]); ext[j]=e[j].kind==0?un:b|sel(b!=0,un); }
    unsigned E=0,G=0,TT=0,xe=0,xg=0,xt=0; for(int j=0;j<ne;++j){ unsigned same=(e[j].num>>16)==(q.num>>16); if(e[j].kind==0) continue; if(e[j].kind==1){ G|=same; xg|=sel(same,ext[j]); } else { TT|=same; xt|=sel(same,ext[j]); unsigned s=e[j].num==q.num; E|=s; xe|=sel(s,ext[j]); } }
    if(q.kind==0) want[w]=un; else if(q.kind==1) want[w]=sel(G|TT,xg|xt)|sel(1u^(G|TT),un); else want[w]=sel(E,xe|xg)|sel((1u^E)&G,xg)|sel((1u^E)&(1u^G),un);
    if(!w){ unsigned found= q.kind==0?unNamed:(q.kind==1?(G|TT|unNamed):(E|G|unNamed)); SX_ASSERT((unsigned)cc.hasEmptyOutputTypeOrFeatures(lang)==(found&(unsigned)(want[0]==0)),"always called exactly when its capabilities for the language declare no output"); } }
  unsigned got=0,gi=0; for(int k=0;k<3;++k){ got|=(unsigned)cc.hasOutputTypeOrFeature(tof[k],lang)<<k; gi|=(unsigned)cc.hasInputTypeOrFeature(tof[k],lang)<<k; }
  SX_ASSERT(got==want[0],"output declared for a matching language"); SX_ASSERT(gi==want[1],"input declared for a matching language");
  SX_ASSERT((unsigned)cc.getOutputTypeOrFeatures(lang).size()==(want[0]&1)+(want[0]>>1&1)+(want[0]>>2&1),"no other outputs"); if(got) symx_reached("provided");
  symx_observe(got); symx_observe(gi); for(int i=0;i<nc;++i) delete v[i];
}
SYMX_SCENARIO_SETUP(capabilities1,setup){ caps(1,2); }
SYMX_SCENARIO_SETUP(capabilities2,setup){ caps(2,1); }
SYMX_SCENARIO_SETUP(deep_capabilities3,setup){ caps(3,1); }
SYMX_SCENARIO_SETUP(deep_capabilities2l,setup){ caps(2,2); }
// many types, features and languages
static void setupMany(){ hSetup([](HDef& D){ char b[24]; for(int i=0;i<60;++i){ sprintf(b,"many.T%d",i); ll::TyFSType t=D.type(uima::internal::gs_tyAnnotationType,b); D.feat(t,uima::internal::gs_tyIntegerType,"a"); if(i%3==0) D.feat(t,uima::internal::gs_tyStringType,"b"); } },[](HDef&){}); }
static TypeOrFeature many_(int i){ char b[32]; if(i<60){ sprintf(b,"many.T%d",i); return TypeOrFeature(hT(g_def->ts().getTypeByName(US(b)))); } if(i<120){ sprintf(b,"many.T%d",i-60); return TypeOrFeature(hF(g_def->ts().getFeatureByBaseName(g_def->ts().getTypeByName(US(b)),US("a")))); } sprintf(b,"many.T%d",(i-120)*3); return TypeOrFeature(hF(g_def->ts().getFeatureByBaseName(g_def->ts().getTypeByName(US(b)),US("b")))); }
SYMX_SCENARIO_SETUP(many_spec,setupMany){ enum{N=140}; int mul=sx_choose("mul",3),n=sx_choose("n",3)==0?17:sx_choose("n2",2)?64:N; static const int MU[3]={1,37,139}; ResultSpecification rs; bool in[N]; memset(in,0,sizeof in); for(int k=0;k<n;++k){ int i=k*MU[mul]%N; rs.add(many_(i)); in[i]=true; if(k%5==2) rs.add(many_(i)); if(k%7==3){ int j=(k*11)%N; rs.remove(many_(j)); in[j]=false; } } unsigned bad=0; size_t c=0; for(int i=0;i<N;++i){ bad|=(unsigned)(rs.contains(many_(i))!=in[i]); c+=in[i]; } SX_ASSERT(bad==0&&rs.getSize()==c,"of many types and features exactly those added and not removed"); size_t k=0; for(ResultSpecification::TyTypeOrFeatureSTLSet::const_iterator it=rs.getTypeOrFeatureSTLSet().begin();it!=rs.getTypeOrFeatureSTLSet().end();++it) ++k; SX_ASSERT(k==c,"listed once each"); symx_reached("many"); }
SYMX_SCENARIO_SETUP(many_languages,setupMany){ static const char* LN[14]={"en","en-US","en-GB","de","de-AT","fr","fr-CA","zh","zh-CN","zh-TW","pt-BR","es","ja","x-unspecified"}; std::vector<Capability*> vec; int skip=sx_choose("skip",14); for(int i=0;i<14;++i) if(i!=skip){ Capability* v=new Capability(); v->addSupportedLanguage(US(LN[i])); char b[32]; for(int k=0;k<4;++k){ sprintf(b,"many.T%d",i*4+k); v->addCapabilityType(US(b),k==3?Capability::INPUT:Capability::OUTPUT); if(k==1){ sprintf(b,"many.T%d:a",i*4+k); v->addCapabilityFeature(US(b),Capability::OUTPUT); } } vec.push_back(v); }
  CC cc; cc.init(vec,g_cas->getTypeSystem()); static const char* QL[8]={"en","en-US","en-AU","de-AT","pt-BR","pt","ko","zh-TW"}; int q=sx_choose("q",9); std::string ql=q<8?QL[q]:"x-unspecified"; Language lang(ql.c_str()); bool isX=q==8,hasT=ql.size()>2&&!isX; std::string ma=ql.substr(0,2);
  // own language, then the language without territory; the unspecified language's always count as well
  bool exact=false,main=false; for(int i=0;i<13;++i) if(i!=skip){ exact|=ql==LN[i]; main|=ma==LN[i]; } unsigned bad=0; for(int i=0;i<14;++i){ std::string l=LN[i]; bool un=i==13,w; if(i==skip) w=false; else if(isX) w=un; else if(hasT) w=un||(exact?(l==ql||l==ma):main?l==ma:false); else w=un||l==ql||(l.size()>2&&!un&&l.substr(0,2)==ql); if(!isX&&un&&i!=skip) w=true; for(int k=0;k<4;++k){ TypeOrFeature t=many_(i*4+k); bad|=(unsigned)(cc.hasOutputTypeOrFeature(t,lang)!=(w&&k!=3)); bad|=(unsigned)(cc.hasInputTypeOrFeature(t,lang)!=(w&&k==3)); if(k==1) bad|=(unsigned)(cc.hasOutputTypeOrFeature(many_(60+i*4+k),lang)!=w); } } SX_ASSERT(bad==0,"the declarations of exactly the matching ones of many languages"); for(auto v:vec) delete v; symx_reached("languages"); }
SYMX_SCENARIO_SETUP(many_types,setupMany){ int split=sx_choose("split",3),n=sx_choose("few",2)?9:55; std::vector<Capability*> vec; Capability* v=0; bool out[180],in[180]; memset(out,0,sizeof out); memset(in,0,sizeof in); char b[32]; auto name=[&](int i){ if(i<60) sprintf(b,"many.T%d",i); else sprintf(b,"many.T%d:a",i-60); return US(b); };
  for(int k=0;k<n;++k){ if(!v||(split&&k%(split==1?20:4)==0)){ v=new Capability(); v->addSupportedLanguage(US(k%3==0?"x-unspecified":"x-unspecified")); vec.push_back(v); } int i=k*7%120; auto kind=k%3==2?Capability::INPUT:Capability::OUTPUT; if(i<60) v->addCapabilityType(name(i),kind); else v->addCapabilityFeature(name(i),kind); (k%3==2?in:out)[i]=true; }
  CC cc; cc.init(vec,g_cas->getTypeSystem()); static const char* Q[3]={"en","x-unspecified","de-AT"}; Language lang(Q[sx_choose("q",3)]); unsigned bad=0; for(int i=0;i<120;++i){ bad|=(unsigned)(cc.hasOutputTypeOrFeature(many_(i),lang)!=out[i]); bad|=(unsigned)(cc.hasInputTypeOrFeature(many_(i),lang)!=in[i]); } SX_ASSERT(bad==0,"every one of many declared types and features"); for(auto c:vec) delete c; symx_reached("many types"); }
