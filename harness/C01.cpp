// C01: feature values.
// BOUND: two live feature structures (types A and its subtype B with 23/24 features) plus one of each array kind; every sequence of 3 (thorough: 4) writes, each to a symbolic target and kind with symbolic values (all 32/64-bit patterns, all UTF-16 strings of length 0..2); then every feature of both structures is read
// BOUND: 48 structures with five features set, one further write (6 kinds, any value) to one of six of them, then all of them read
// OUTSIDE: longer write sequences (each write is independent of earlier ones except through heap growth, which C06 covers); NaN payload canonicalisation is compared as bits
#include "cascommon.hpp"
using namespace full;
static FeatureStructure fs[2],orig[2]; static IntArrayFS gi; static LongArrayFS gl; static ByteArrayFS gy; static ShortArrayFS gh; static ArrayFS gr; static StringArrayFS gs_;
static void setup(){ hSetup(types,nullptr); }
static void mk(){ fs[0]=g_cas->createFS(hT(A)); gi=g_cas->createIntArrayFS(2); gl=g_cas->createLongArrayFS(2); fs[1]=g_cas->createFS(hT(B)); gy=g_cas->createByteArrayFS(2); gh=g_cas->createShortArrayFS(2); gr=g_cas->createArrayFS(2); gs_=g_cas->createStringArrayFS(2);
  gi.set(0,77); gi.set(1,78); gl.set(0,79); gl.set(1,80); gy.set(0,81); gy.set(1,82); gh.set(0,83); gh.set(1,84); gs_.set(0,icu::UnicodeString((char16_t)85)); gr.set(0,fs[0]); gr.set(1,fs[1]); orig[0]=fs[0]; orig[1]=fs[1]; }
struct M { bool set[16]; uint64_t v[16]; int sl; char16_t sc[2]; };
enum { KI,KF,KS,KB,KY,KH,KL,KD,KR,KRA,KRB,KBI,NK };
static void readAll(M* m,bool only0=false){
  for(int k=0;k<2;++k){ FeatureStructure& F=fs[k]; M& x=m[k];
    SX_ASSERT((uint32_t)F.getIntValue(hF(i))==(uint32_t)x.v[KI],"int"); SX_ASSERT(fbits(F.getFloatValue(hF(f)))==(uint32_t)x.v[KF],"float");
    UnicodeStringRef s_=F.getStringValue(hF(s)); if(x.set[KS]){ SX_ASSERT(eqU(s_,x.sc,x.sl),"string"); SX_ASSERT(s_.getBuffer()!=NULL,"set string is not unset"); } else SX_ASSERT(s_.getBuffer()==NULL&&s_.length()==0,"string default");
    SX_ASSERT((uint64_t)F.getBooleanValue(hF(b))==x.v[KB],"boolean"); SX_ASSERT((uint8_t)F.getByteValue(hF(y))==(uint8_t)x.v[KY],"byte"); SX_ASSERT((uint16_t)F.getShortValue(hF(h))==(uint16_t)x.v[KH],"short");
    SX_ASSERT((uint64_t)F.getLongValue(hF(l))==x.v[KL],x.set[KL]?"long":"long default"); SX_ASSERT(dbits(F.getDoubleValue(hF(d)))==x.v[KD],x.set[KD]?"double":"double default");
    const ll::TyFSFeature rf[3]={r,ra,rb}; for(int j=0;j<3;++j){ FeatureStructure v=F.getFSValue(hF(rf[j])); SX_ASSERT(v.isValid()==(x.v[KR+j]!=0),"reference validity"); if(v.isValid()&&x.v[KR+j]) SX_ASSERT(v==orig[x.v[KR+j]-1],"reference"); }
    SX_ASSERT(F.isUntouchedFSValue(hF(r))==!x.set[KR],"untouched");
    SX_ASSERT(F.getIntArrayFSValue(hF(ai)).isValid()==false,"array reference default");
    SX_ASSERT(F.getType()==hT(k?B:A),"type unchanged");
    if(k==1) SX_ASSERT((uint32_t)F.getIntValue(hF(bi))==(uint32_t)x.v[KBI],"int of subtype"); }
  SX_ASSERT(gi.size()==2&&gi.get(0)==77&&gi.get(1)==78,"int array untouched"); SX_ASSERT(gl.size()==2&&gl.get(0)==79&&gl.get(1)==80,"long array untouched"); SX_ASSERT(gy.size()==2&&gy.get(0)==81&&gy.get(1)==82,"byte array untouched"); SX_ASSERT(gh.size()==2&&gh.get(0)==83&&gh.get(1)==84,"short array untouched");
  SX_ASSERT(gr.get(0)==orig[0]&&gr.get(1)==orig[1],"FS array untouched"); char16_t c=85; SX_ASSERT(gs_.size()==2&&eqU(gs_.get(0),&c,1)&&gs_.get(1).getBuffer()==NULL,"string array untouched");
}
static void doWrite(M* m,int k,int kind,int step){
  FeatureStructure& F=fs[k]; M& x=m[k]; const char* p=nm("v",step); uint64_t v= kind==KR||kind==KRA||kind==KRB||kind==KS?0:sx_u64(p);
  switch(kind){
  case KI: F.setIntValue(hF(i),(int)v); x.v[KI]=(uint32_t)v; break; case KF: F.setFloatValue(hF(f),ffrom((uint32_t)v)); x.v[KF]=(uint32_t)v; break;
  case KS: { int n=sx_choose(NM("n",step),3); char16_t c[2]; for(int j=0;j<n;++j){ c[j]=sx_u16(nm("c",step*4+j)); symx_assume(c[j]!=0); x.sc[j]=c[j]; } x.sl=n; F.setStringValue(hF(s),UnicodeStringRef(c,n)); break; }
  case KB: F.setBooleanValue(hF(b),(v&1)!=0); x.v[KB]=v&1; break; case KY: F.setByteValue(hF(y),(char)v); x.v[KY]=(uint8_t)v; break; case KH: F.setShortValue(hF(h),(short)v); x.v[KH]=(uint16_t)v; break;
  case KL: F.setLongValue(hF(l),(INT64)v); x.v[KL]=v; break; case KD: F.setDoubleValue(hF(d),dfrom(v)); x.v[KD]=v; break;
  case KR: case KRA: case KRB: { int t=kind==KRB?1:sx_choose(NM("t",step),2); const ll::TyFSFeature rf[3]={r,ra,rb}; F.setFSValue(hF(rf[kind-KR]),orig[t]); x.v[kind]=t+1; break; }
  case KBI: fs[1].setIntValue(hF(bi),(int)v); m[1].v[KBI]=(uint32_t)v; m[1].set[KBI]=true; return; }
  x.set[kind]=true; }
SYMX_SCENARIO_SETUP(defaults,setup){ mk(); M m[2]; memset(m,0,sizeof m); readAll(m); symx_reached("defaults"); }
SYMX_SCENARIO_SETUP(writes,setup){ mk(); M m[2]; memset(m,0,sizeof m); int n=symx_thorough()?3:2;
  for(int st=0;st<n;++st){ int k=sx_choose(NM("k",st),2); int kind=sx_choose(NM("w",st),NK); doWrite(m,k,kind,st); }
  symx_reached("written"); readAll(m); symx_observe((uint32_t)fs[0].getIntValue(hF(i))); symx_observe(fs[1].getLongValue(hF(l))); }
// overwriting: the same feature written three times with other writes in between
SYMX_SCENARIO_SETUP(overwrite,setup){ mk(); M m[2]; memset(m,0,sizeof m); int kind=sx_choose("w",NK),other=sx_choose("o",NK);
  doWrite(m,0,kind,0); doWrite(m,1,kind,1); doWrite(m,0,other,2); doWrite(m,0,kind,3); symx_reached("overwritten"); readAll(m); }
// clone copies exactly the values
SYMX_SCENARIO_SETUP(clone,setup){ mk(); M m[2]; memset(m,0,sizeof m); int k=sx_choose("k",2); int kind=sx_choose("w",NK-1); doWrite(m,k,kind,0); orig[0]=fs[0]; orig[1]=fs[1];
  FeatureStructure c=fs[k].clone(); SX_ASSERT(c!=fs[k],"clone is a new structure"); SX_ASSERT(c.getType()==fs[k].getType(),"clone type"); FeatureStructure o=fs[k]; fs[k]=c; readAll(m);  // the copy has the values
  fs[k]=o; M m0[2]; memcpy(m0,m,sizeof m); doWrite(m,k,kind,1); readAll(m);  // writing the original
  fs[k]=c; readAll(m0); doWrite(m0,k,kind,2); readAll(m0); fs[k]=o; readAll(m); symx_reached("cloned"); }
// many structures: one write to one of them
SYMX_SCENARIO_SETUP(large,setup){ FeatureStructure x[48]; int N=48; char16_t sb[3]; for(int q=0;q<N;++q){ x[q]=g_cas->createFS(hT(q%3?A:B)); x[q].setIntValue(hF(i),q*7-20); x[q].setLongValue(hF(l),(INT64)q<<33|q); x[q].setDoubleValue(hF(d),q*0.5); sb[0]=0x41+q; sb[1]=q; x[q].setStringValue(hF(s),UnicodeStringRef(sb,q%2+1)); if(q) x[q].setFSValue(hF(r),x[(q*5)%q]); }
  static const int AT[]={0,1,15,16,31,47}; int w=AT[sx_choose("at",6)],k=sx_choose("kind",6); uint64_t v=sx_u64("v"); char16_t u=sx_unit("u"); switch(k){ case 0: x[w].setIntValue(hF(i),(int)v); break; case 1: x[w].setLongValue(hF(l),(INT64)v); break; case 2: x[w].setDoubleValue(hF(d),dfrom(v)); break; case 3: x[w].setStringValue(hF(s),UnicodeStringRef(&u,1)); break; case 4: x[w].setFSValue(hF(r),x[47-w]); break; default: x[w].setFloatValue(hF(f),ffrom((uint32_t)v)); }
  unsigned bad=0; for(int q=0;q<N;++q){ bool me=q==w; bad|=(unsigned)((uint32_t)x[q].getIntValue(hF(i))^(uint32_t)(me&&k==0?v:q*7-20)); uint64_t z=(uint64_t)x[q].getLongValue(hF(l))^(me&&k==1?v:((uint64_t)q<<33|q)); bad|=(unsigned)z|(unsigned)(z>>32); z=dbits(x[q].getDoubleValue(hF(d)))^(me&&k==2?v:dbits(q*0.5)); bad|=(unsigned)z|(unsigned)(z>>32); bad|=fbits(x[q].getFloatValue(hF(f)))^(uint32_t)(me&&k==5?v:0); sb[0]=me&&k==3?u:0x41+q; sb[1]=q; bad|=(unsigned)!eqU(x[q].getStringValue(hF(s)),sb,me&&k==3?1:q%2+1); FeatureStructure t=x[q].getFSValue(hF(r)); bad|=(unsigned)(me&&k==4?!(t==x[47-w]):q?!(t==x[(q*5)%q]):t.isValid()); bad|=(unsigned)x[q].getBooleanValue(hF(b)); }
  SX_ASSERT(bad==0,"one write changes one feature of one of many structures"); symx_reached("large"); }
