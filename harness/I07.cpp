// I07: filtered iteration leaves out exactly what the filter holds for.
// BOUND: filters from int (=,<,>), float (=,<,>), string (=, 0..2 units), type (exact, subsuming) and match leaves over feature paths of 1..2 steps (1..5 for one leaf) with any constants and feature values, NOT of each, AND/OR of any two leaves and of NOTs; filtered iteration forward, backward, moveTo and copies over 0..3 (thorough 4) structures with any keys in sorted, bag and merged indexes
// BOUND: also filtered iteration over 40 structures with fixed keys and any limit
// OUTSIDE: larger formulas (each combinator only combines the results of its operands); paths through unset references
#include "idx.hpp"
static ll::TyFSFeature r_,fl_;
static void types(HDef& D){ using namespace uima::internal; idxTypes(D); r_=D.feat(A_,A_,"r"); fl_=D.feat(A_,gs_tyFloatType,"fl"); }
static void setup(){ hSetup(types,idxAll); c_=g_cas; ne_=0; }
// a structure with a referenced second one; all values symbolic
struct V { int k,k2; float f,f2; int n,n2; char16_t u[2],u2[2]; int ty,ty2; FeatureStructure a,b; };
static V v_; static int strLen(const char* p){ return sx_choose(p,symx_thorough()?3:2); }
static void put(FeatureStructure& a,int k,float f,char16_t* u,int n){ a.setIntValue(hF(k_),k); a.setFloatValue(hF(fl_),f); a.setStringValue(hF(s_),UnicodeStringRef(u,n)); }
static FSFilterBuilder fb_;
struct Leaf { FSFilter* f; bool holds; };
static bool ordf(int op,float x,float y){ return op==0?x==y:op==1?x>y:x<y; }
static Leaf leaf(const char* id){ Leaf l; int kind=sx_choose(nm("kind",0,id),6); bool path=sx_choose(nm("path",0,id),2); std::vector<Feature> p; if(path) p.push_back(hF(r_)); FeatureStructure& t=path?v_.b:v_.a;
  static const FSFilterBuilder::EnComparisonOperator OP[]={FSFilterBuilder::EQUALS,FSFilterBuilder::GREATER,FSFilterBuilder::LESS};
  if(kind==0){ int op=sx_choose(nm("op",0,id),3); int c=sx_i32(nm("c",0,id)); p.push_back(hF(k_)); l.f=fb_.createIntFeatureFilter(p,OP[op],c); int x=path?v_.k2:v_.k; l.holds=op==0?x==c:op==1?x>c:x<c; }
  else if(kind==1){ int op=sx_choose(nm("op",0,id),3); float c=ffrom(sx_u32(nm("c",0,id))); p.push_back(hF(fl_)); l.f=fb_.createFloatFeatureFilter(p,OP[op],c); l.holds=ordf(op,path?v_.f2:v_.f,c); }
  else if(kind==2){ int n=strLen(nm("cn",0,id)); char16_t c[2]={0,0}; for(int i=0;i<n;++i) c[i]=sx_unit(nm("cu",i,id)); p.push_back(hF(s_)); l.f=fb_.createStringFeatureFilter(p,(UChar*)c,n); c[0]=n>0?c[0]:0; char16_t* u=path?v_.u2:v_.u; bool e=(path?v_.n2:v_.n)==n; for(int i=0;i<n;++i) e=e&(u[i]==c[i]); l.holds=e; }
  else if(kind<5){ int t0=sx_choose(nm("t",0,id),4); bool sub=kind==4; l.f=fb_.createTypeFilter(hT(tyOf(t0)),sub); int ty=path?v_.ty2:v_.ty; l.holds=sub?subT(t0,ty):t0==ty; if(path) l.f=fb_.createMatchFilter(std::vector<Feature>(1,hF(r_)),l.f); }
  else { int c=sx_i32(nm("c",0,id)); l.f=fb_.createMatchFilter(p,fb_.createIntFeatureFilter(std::vector<Feature>(1,hF(k_)),FSFilterBuilder::GREATER,c)); l.holds=(path?v_.k2:v_.k)>c; }
  (void)t; return l; }
static void values(bool strs){ v_.k=sx_i32("vk"); v_.k2=sx_i32("vk2"); v_.f=ffrom(sx_u32("vf")); v_.f2=ffrom(sx_u32("vf2")); v_.n=strs?strLen("vn"):0; v_.n2=strs?strLen("vn2"):0; for(int i=0;i<v_.n;++i) v_.u[i]=sx_unit(nm("vu",i)); for(int i=0;i<v_.n2;++i) v_.u2[i]=sx_unit(nm("vw",i)); v_.ty=sx_choose("ty",symx_thorough()?4:2)*(symx_thorough()?1:3); v_.ty2=sx_choose("ty2",2); v_.a=c_->createFS(hT(tyOf(v_.ty))); v_.b=c_->createFS(hT(tyOf(v_.ty2))); put(v_.a,v_.k,v_.f,v_.u,v_.n); put(v_.b,v_.k2,v_.f2,v_.u2,v_.n2); v_.a.setFSValue(hF(r_),v_.b); }
SYMX_SCENARIO_SETUP(leaves,setup){ values(true); Leaf l=leaf("a"); bool neg=sx_choose("not",2); FSFilter* f=neg?fb_.createNOTFilter(l.f):l.f; bool r=f->isFiltered(v_.a); SX_ASSERT(r==(neg?!l.holds:l.holds),"a filter holds exactly when its formula does"); f->deInit(); delete f; symx_reached("leaf"); }
static Leaf intLeaf(const char* id){ Leaf l; int c=sx_i32(nm("c",0,id)); bool path=sx_choose(nm("path",0,id),2); std::vector<Feature> p; if(path) p.push_back(hF(r_)); p.push_back(hF(k_)); l.f=fb_.createIntFeatureFilter(p,FSFilterBuilder::LESS,c); l.holds=(path?v_.k2:v_.k)<c; if(sx_choose(nm("neg",0,id),2)){ l.f=fb_.createNOTFilter(l.f); l.holds=!l.holds; } return l; }
SYMX_SCENARIO_SETUP(combined,setup){ values(false); Leaf a=intLeaf("a"),b=intLeaf("b"); int op=sx_choose("comb",2); FSFilter* f=op?fb_.createANDFilter(a.f,b.f):fb_.createORFilter(a.f,b.f); bool w=op?(a.holds&b.holds):(a.holds|b.holds); if(sx_choose("third",2)){ Leaf c=intLeaf("c"); bool o2=sx_choose("comb2",2); f=o2?fb_.createANDFilter(f,c.f):fb_.createORFilter(c.f,f); w=o2?(w&c.holds):(w|c.holds); } SX_ASSERT(f->isFiltered(v_.a)==w,"conjunction and disjunction"); f->deInit(); delete f; symx_reached("combined"); }
// iteration
static void iter(int o,bool types,int max){ int n=max>30?max:sx_choose("n",max+1); for(int i=0;i<n;++i){ mkFS(types?(i%2?1:0):3,max>30?(i*7%n)/3*10-30:sx_i32(nm("k",i)),0); add(i); } int c=sx_i32("c"); FSFilter* f=fb_.createIntFeatureFilter(std::vector<Feature>(1,hF(k_)),FSFilterBuilder::GREATER,c); /* leaves out k > c */ FSIndex x=rep().getIndex(US(LBL[o]),hT(types?A_:D_)); Seq s=fwd(x.iterator()),w={}; for(int i=0;i<s.n;++i) if(e_[s.v[i]].k<=c) w.v[w.n++]=s.v[i];
  Seq g=fwd(x.filteredIterator(f)),b=bwd(x.filteredIterator(f)); SX_ASSERT(g.n==w.n&&b.n==w.n,"number of structures the filter lets through"); for(int i=0;i<g.n&&i<w.n;++i) SX_ASSERT(g.v[i]==w.v[i],"filtered iteration keeps order and elements"); for(int i=0;i<b.n&&i<w.n;++i) SX_ASSERT(b.v[i]==w.v[w.n-1-i],"backward filtered iteration");
  if(n){ int j=n>30?sx_choose("to",4)*9:sx_choose("to",n); FSIterator it=x.filteredIterator(f); FSIterator cp(it); it.moveTo(e_[j].fs); if(it.isValid()){ int a=who(it.get()); int p=-1,pj=-1,pa=-1; for(int i=0;i<w.n;++i) if(w.v[i]==a) p=i; SX_ASSERT(p>=0,"moveTo of a filtered iteration stands on an element the filter lets through"); for(int i=0;i<s.n;++i){ if(s.v[i]==j) pj=i; if(s.v[i]==a) pa=i; } bool between=false; for(int i=0;i<s.n;++i) if(i>=pj&&i<pa&&e_[s.v[i]].k<=c) between=true; SX_ASSERT(pa>=pj&&!between,"the first one from there"); } else { bool any=false; int pj=-1; for(int i=0;i<s.n;++i){ if(s.v[i]==j) pj=i; if(pj>=0&&e_[s.v[i]].k<=c) any=true; } SX_ASSERT(!any,"moveTo finds the next element the filter lets through"); } SX_ASSERT(cp.isValid()==(w.n>0),"a copy is not moved"); if(cp.isValid()&&w.n) SX_ASSERT(who(cp.get())==w.v[0],"a copy stays"); }
  symx_reached("iterated"); }
SYMX_SCENARIO_SETUP(sorted,setup){ iter(ASC,false,symx_thorough()?4:3); }
SYMX_SCENARIO_SETUP(bag,setup){ iter(BAG,false,symx_thorough()?4:3); }
SYMX_SCENARIO_SETUP(merged,setup){ iter(DESC,true,symx_thorough()?4:3); }
SYMX_SCENARIO_SETUP(large_sorted,setup){ iter(ASC,false,40); }
SYMX_SCENARIO_SETUP(large_merged,setup){ iter(TWO,true,40); }
// paths of up to five steps along a chain of structures, two different reference features
static ll::TyFSFeature r2_; static void types5(HDef& D){ types(D); r2_=D.feat(A_,A_,"r2"); }
static void setup5(){ hSetup(types5,idxAll); c_=g_cas; ne_=0; }
SYMX_SCENARIO_SETUP(long_path,setup5){ int k[5]; float f[5]; UChar u[5]; FeatureStructure s[5]; int n=sx_choose("steps",5); int via[5]={}; for(int i=0;i<5;++i){ k[i]=sx_i32(nm("k",i)); f[i]=ffrom(sx_u32(nm("f",i))); u[i]=(UChar)sx_unit(nm("u",i)); s[i]=c_->createFS(hT(i==4?D_:A_)); put(s[i],k[i],f[i],(char16_t*)&u[i],1); if(i<n) via[i]=i<3?sx_choose(nm("via",i),2):0; } for(int i=0;i<4;++i){ s[i].setFSValue(hF(via[i]?r2_:r_),s[i+1]); s[i].setFSValue(hF(via[i]?r_:r2_),s[(i+3)%5]); } std::vector<Feature> p; for(int i=0;i<n;++i) p.push_back(hF(via[i]?r2_:r_)); FSFilter* g; bool w; int kind=sx_choose("kind",5); if(kind==0){ int c=sx_i32("c"); p.push_back(hF(k_)); g=fb_.createIntFeatureFilter(p,FSFilterBuilder::LESS,c); w=k[n]<c; } else if(kind==1){ float c=ffrom(sx_u32("fc")); p.push_back(hF(fl_)); g=fb_.createFloatFeatureFilter(p,FSFilterBuilder::GREATER,c); w=f[n]>c; } else if(kind==2){ UChar c=(UChar)sx_unit("uc"); p.push_back(hF(s_)); g=fb_.createStringFeatureFilter(p,&c,1); w=u[n]==c; } else if(kind==3){ g=fb_.createMatchFilter(p,fb_.createTypeFilter(hT(D_),false)); w=n==4; } else { int c=sx_i32("c"); g=fb_.createMatchFilter(p,fb_.createIntFeatureFilter(std::vector<Feature>(1,hF(k_)),FSFilterBuilder::EQUALS,c)); w=k[n]==c; } SX_ASSERT(g->isFiltered(s[0])==w,"a filter looks at the end of its feature path"); g->deInit(); delete g; symx_reached("long path"); }
