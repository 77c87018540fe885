// I10: key comparison is a consistent order for all key types.
// BOUND: all pairs of values of each primitive key type (floats and doubles other than NaN), strings of 0..2 units of any value and unset strings, each ascending and descending; two-key and three-key combinations with type priority over four types; all triples of int and string keys for transitivity
// OUTSIDE: longer strings (the comparison is unit by unit); NaN keys (no order exists)
#include "idx.hpp"
static ll::TyFSFeature fi,ff,fs_,fb,fy,fh,fl,fd,fsub; static ll::TyFSType Sub;
static void types(HDef& D){ using namespace uima::internal; idxTypes(D); std::vector<icu::UnicodeString> v; v.push_back(US("b")); v.push_back(US("ab")); v.push_back(US("a")); Sub=D.ts().createStringSubtype(US("I.Sub"),v,US("h"));
  fi=D.feat(A_,gs_tyIntegerType,"i"); ff=D.feat(A_,gs_tyFloatType,"f"); fs_=D.feat(A_,gs_tyStringType,"st"); fb=D.feat(A_,gs_tyBooleanType,"b"); fy=D.feat(A_,gs_tyByteType,"y"); fh=D.feat(A_,gs_tyShortType,"h"); fl=D.feat(A_,gs_tyLongType,"ln"); fd=D.feat(A_,gs_tyDoubleType,"db"); fsub=D.feat(A_,Sub,"sub"); D.ts().addTypePriority(C_,B_); D.ts().addTypePriority(B_,A_); D.ts().addTypePriority(A_,D_); }
static void setup(){ hSetup(types,[](HDef& D){ D.index(ID::enOrdered,A_,{fsub,fi},{false,false},"sub"); }); c_=g_cas; }
static IC* mkc(std::vector<ll::TyFSFeature> f,std::vector<bool> rev){ IC* c=new IC(*g_def->iv_indexDefinition,A_); for(size_t i=0;i<f.size();++i) c->addKey(f[i],rev[i]?IC::REVERSE_STANDARD_COMPARE:IC::STANDARD_COMPARE); return c; }
static ll::FSHeap& heap(){ return *g_cas->getHeap(); }
static int sgn(int c){ return (c>0)-(c<0); }
static FeatureStructure fs(int t=0){ return g_cas->createFS(hT(tyOf(t))); }
// lt/gt of the pair against the comparator, both argument orders
static void pair(ll::TyFSFeature f,FeatureStructure a,FeatureStructure b,bool lt,bool gt){ int r=sx_choose("rev",2); IC* c=mkc({f},{r==1}); int x=sgn(c->compare(heap(),hA(a),hA(b))),y=sgn(c->compare(heap(),hA(b),hA(a))); int w=(int)lt-(int)gt; if(r) w=-w;
  SX_ASSERT(x==w,"comparison agrees with the order of the values"); SX_ASSERT(y==-w,"comparison is antisymmetric"); SX_ASSERT(c->compare(heap(),hA(a),hA(a))==0,"a structure is equal to itself"); symx_observe(x+1); symx_reached("pair"); }
SYMX_SCENARIO_SETUP(int_,setup){ int a=sx_i32("a"),b=sx_i32("b"); FeatureStructure x=fs(),y=fs(); x.setIntValue(hF(fi),a); y.setIntValue(hF(fi),b); pair(fi,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(float_,setup){ float a=ffrom(sx_u32("a")),b=ffrom(sx_u32("b")); symx_assume((a==a)&(b==b)); FeatureStructure x=fs(),y=fs(); x.setFloatValue(hF(ff),a); y.setFloatValue(hF(ff),b); pair(ff,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(bool_,setup){ bool a=sx_bool("a"),b=sx_bool("b"); FeatureStructure x=fs(),y=fs(); x.setBooleanValue(hF(fb),a); y.setBooleanValue(hF(fb),b); pair(fb,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(byte_,setup){ char a=(char)sx_u8("a"),b=(char)sx_u8("b"); FeatureStructure x=fs(),y=fs(); x.setByteValue(hF(fy),a); y.setByteValue(hF(fy),b); pair(fy,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(short_,setup){ short a=(short)sx_u16("a"),b=(short)sx_u16("b"); FeatureStructure x=fs(),y=fs(); x.setShortValue(hF(fh),a); y.setShortValue(hF(fh),b); pair(fh,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(long_,setup){ INT64 a=(INT64)sx_u64("a"),b=(INT64)sx_u64("b"); FeatureStructure x=fs(),y=fs(); bool u=sx_choose("unset",2); if(u) a=0; else x.setLongValue(hF(fl),a); y.setLongValue(hF(fl),b); pair(fl,x,y,a<b,a>b); }
SYMX_SCENARIO_SETUP(double_,setup){ double a=dfrom(sx_u64("a")),b=dfrom(sx_u64("b")); symx_assume((a==a)&(b==b)); FeatureStructure x=fs(),y=fs(); bool u=sx_choose("unset",2); if(u) a=0; else x.setDoubleValue(hF(fd),a); y.setDoubleValue(hF(fd),b); pair(fd,x,y,a<b,a>b); }
// strings: code unit order, shorter first; unset compares as empty
struct Str { int n; char16_t u[4]; };
static Str str(const char* p,int i,FeatureStructure f){ Str s; for(int j=0;j<4;++j) s.u[j]=0; s.n=sx_choose(nm(p,i,"len"),symx_thorough()?5:4)-1; for(int j=0;j<s.n;++j) s.u[j]=sx_unit(nm(p,i*10+j,"u")); if(s.n>=0) f.setStringValue(hF(fs_),UnicodeStringRef(s.u,s.n)); else s.n=0; return s; }
static int cmpS(Str const& a,Str const& b){ int r=(a.n>b.n)-(a.n<b.n); for(int i=(a.n<b.n?a.n:b.n);i-->0;){ int x=a.u[i],y=b.u[i]; int d=(x>y)-(x<y); r=d+r*(d==0); } return r; }
SYMX_SCENARIO_SETUP(string_,setup){ FeatureStructure x=fs(),y=fs(); Str a=str("a",0,x),b=str("b",0,y); int c=cmpS(a,b); pair(fs_,x,y,c<0,c>0); }
SYMX_SCENARIO_SETUP(string_trans,setup){ FeatureStructure x=fs(),y=fs(),z=fs(); Str a=str("a",0,x),b=str("b",0,y),c=str("c",0,z); symx_assume((a.n<3)&(b.n<3)&(c.n<3)); IC* k=mkc({fs_},{false}); int xy=k->compare(heap(),hA(x),hA(y)),yz=k->compare(heap(),hA(y),hA(z)),xz=k->compare(heap(),hA(x),hA(z)); if(xy>=0&&yz>=0) SX_ASSERT(xz>=0&&((xz==0)==(xy==0&&yz==0)),"transitive"); symx_reached("triple"); }
// several keys: lexicographic, each in its own direction; type priority as a key
SYMX_SCENARIO_SETUP(combined,setup){ int r=sx_choose("revs",8),t=sx_choose("t0",4),u=sx_choose("t1",4); int a[2],b[2]; INT64 la,lb; FeatureStructure x=fs(t),y=fs(u); a[0]=sx_i32("a0"); b[0]=sx_i32("b0"); la=(INT64)sx_u64("la"); lb=(INT64)sx_u64("lb"); x.setIntValue(hF(fi),a[0]); y.setIntValue(hF(fi),b[0]); x.setLongValue(hF(fl),la); y.setLongValue(hF(fl),lb);
  int pos=sx_choose("pos",3); std::vector<ll::TyFSFeature> f; std::vector<bool> rv; static const int PR[]={2,1,0,3}; int d[3]; int di=(a[0]<b[0])-(a[0]>b[0]),dl=(la<lb)-(la>lb),dt=(PR[t]<PR[u])-(PR[t]>PR[u]); int v[3]; ll::TyFSFeature fv[3]; v[pos]=dt; fv[pos]=ll::TypeSystem::INVALID_FEATURE; int o1=(pos+1)%3,o2=(pos+2)%3; v[o1]=di; fv[o1]=fi; v[o2]=dl; fv[o2]=fl;
  int w=0; for(int i=2;i>=0;--i){ f.insert(f.begin(),fv[i]); rv.insert(rv.begin(),(r>>i&1)!=0); d[i]=(r>>i&1)?-v[i]:v[i]; w=d[i]+w*(d[i]==0); }
  IC* c=mkc(f,rv); SX_ASSERT(sgn(c->compare(heap(),hA(x),hA(y)))==w,"keys are compared one after the other, each in its direction"); SX_ASSERT(sgn(c->compare(heap(),hA(y),hA(x)))==-w,"combined comparison is antisymmetric"); symx_reached("combined"); }
// a restricted string is a string key
SYMX_SCENARIO_SETUP(restricted,setup){ static const char16_t* W[]={u"a",u"ab",u"b"}; FeatureStructure x=fs(),y=fs(); int a=sx_choose("a",3),b=sx_choose("b",3); x.setStringValue(hF(fsub),UnicodeStringRef(W[a])); y.setStringValue(hF(fsub),UnicodeStringRef(W[b])); int i=sx_i32("i"),j=sx_i32("j"); x.setIntValue(hF(fi),i); y.setIntValue(hF(fi),j);
  IC* c=mkc({fsub,fi},{false,false}); int d=(a<b)-(a>b),e=(i<j)-(i>j); SX_ASSERT(sgn(c->compare(heap(),hA(x),hA(y)))==(d?d:e),"restricted strings are compared as strings"); symx_reached("restricted"); }
