// C02: array feature structures.
// BOUND: each of the nine array kinds at lengths 0..3 (thorough: 0..4) with another array of the same kind on either side; 2 writes (3) at any index (all 64-bit values, in-range ones and out-of-range ones) with any value, then all elements, sizes and neighbours are read back; bulk copies with every start, end and offset in 0..length+2 and symbolic contents through guarded buffers
// BOUND: arrays of 100 elements of the seven numeric kinds with fixed contents, one of seven elements any value, copied out whole or in part and into another one
// OUTSIDE: elements of longer arrays than these (the element address computation is linear in the index); the copy operations on FS and string arrays, which the API documents as not implemented (they must throw)
#include "cascommon.hpp"
static void setup(){ hSetup(nullptr,nullptr); }
static FeatureStructure tgt[2];
static const int MAXN=4;
template<class A,class T> struct K { };
// per kind: creation, value from raw bits, raw bits from value
struct KInt { typedef IntArrayFS A; typedef int T; static A mk(int n){ return g_cas->createIntArrayFS(n); } static T val(uint64_t v){ return (int)v; } static uint64_t bits(T t){ return (uint32_t)t; } enum{W=32,copy=1}; };
struct KFloat { typedef FloatArrayFS A; typedef float T; static A mk(int n){ return g_cas->createFloatArrayFS(n); } static T val(uint64_t v){ return ffrom((uint32_t)v); } static uint64_t bits(T t){ return fbits(t); } enum{W=32,copy=1}; };
struct KBool { typedef BooleanArrayFS A; typedef bool T; static A mk(int n){ return g_cas->createBooleanArrayFS(n); } static T val(uint64_t v){ return (v&1)!=0; } static uint64_t bits(T t){ return t?1:0; } enum{W=1,copy=1}; };
struct KByte { typedef ByteArrayFS A; typedef char T; static A mk(int n){ return g_cas->createByteArrayFS(n); } static T val(uint64_t v){ return (char)v; } static uint64_t bits(T t){ return (uint8_t)t; } enum{W=8,copy=1}; };
struct KShort { typedef ShortArrayFS A; typedef short T; static A mk(int n){ return g_cas->createShortArrayFS(n); } static T val(uint64_t v){ return (short)v; } static uint64_t bits(T t){ return (uint16_t)t; } enum{W=16,copy=1}; };
struct KLong { typedef LongArrayFS A; typedef INT64 T; static A mk(int n){ return g_cas->createLongArrayFS(n); } static T val(uint64_t v){ return (INT64)v; } static uint64_t bits(T t){ return (uint64_t)t; } enum{W=64,copy=1}; };
struct KDouble { typedef DoubleArrayFS A; typedef double T; static A mk(int n){ return g_cas->createDoubleArrayFS(n); } static T val(uint64_t v){ return dfrom(v); } static uint64_t bits(T t){ return dbits(t); } enum{W=64,copy=1}; };
struct KFS { typedef ArrayFS A; typedef FeatureStructure T; static A mk(int n){ return g_cas->createArrayFS(n); } static T val(uint64_t v){ return (v&1)?tgt[1]:tgt[0]; } static uint64_t bits(T t){ return t.isValid()?(t==tgt[0]?0:t==tgt[1]?1:2):9; } enum{W=1,copy=0}; };
static const char16_t* STR[2]={u"",u"xy"}; 
struct KStr { typedef StringArrayFS A; typedef UnicodeStringRef T; static A mk(int n){ return g_cas->createStringArrayFS(n); } static T val(uint64_t v){ return (v&1)?UnicodeStringRef(STR[1],2):UnicodeStringRef(STR[0],(int)0); } static uint64_t bits(T t){ return t.getBuffer()==NULL?9:t.length()==0?0:eqU(t,STR[1],2)?1:2; } enum{W=1,copy=0}; };
template<class Kd> static uint64_t defbits(){ return Kd::copy?0:9; }
template<class Kd> static uint64_t mask(){ return Kd::W==64?~0ull:((1ull<<Kd::W)-1); }
template<class Kd> static uint64_t inVal(const char* n){ uint64_t v=sx_u64(n)&mask<Kd>(); return Kd::copy?v:symx_pin(v); }
template<class Kd> static void elems(){ typedef typename Kd::A A; typedef typename Kd::T T;
  int N=sx_choose("len",symx_thorough()?MAXN+1:4); A l=Kd::mk(2),a=Kd::mk(N),r=Kd::mk(2); uint64_t nb[4]; for(int i=0;i<4;++i){ nb[i]=(Kd::copy?0xA5C3F00DBEEF1234ull>>i:(uint64_t)i)&mask<Kd>(); (i<2?l:r).set(i%2,Kd::val(nb[i])); }
  uint64_t m[MAXN]; for(int i=0;i<N;++i) m[i]=defbits<Kd>();
  SX_ASSERT((int)a.size()==N,"size is the creation length"); for(int i=0;i<N;++i) SX_ASSERT(Kd::bits(a.get(i))==m[i],"default element");
  int W=symx_thorough()?3:2;
  for(int w=0;w<W;++w){ uint64_t ix=sx_u64(NM("ix",w)); uint64_t v=inVal<Kd>(NM("v",w)); bool out=ix>=(uint64_t)N; T x=Kd::val(v); bool th=throwsUima([&]{ a.set(ix,x); }); SX_ASSERT(th==out,"set throws exactly out of bounds"); if(!out) m[symx_pin(ix)]=v; else symx_reached("out of bounds write"); }
  uint64_t q=sx_u64("q"); bool th=throwsUima([&]{ T x=a.get(q); (void)x; }); SX_ASSERT(th==(q>=(uint64_t)N),"get throws exactly out of bounds");
  for(int i=0;i<N;++i){ SX_ASSERT(Kd::bits(a.get(i))==m[i],"element"); symx_observe(Kd::bits(a.get(i))); }
  SX_ASSERT((int)a.size()==N&&(int)l.size()==2&&(int)r.size()==2,"sizes unchanged"); for(int i=0;i<4;++i) SX_ASSERT(Kd::bits((i<2?l:r).get(i%2))==nb[i],"neighbouring array unchanged"); symx_reached("elements"); }
template<class Kd> static void copies(){ typedef typename Kd::A A; typedef typename Kd::T T; enum{G=8};
  int N=sx_choose("len",4); A l=Kd::mk(2),a=Kd::mk(N),r=Kd::mk(2); uint64_t m[4]; for(int i=0;i<2;++i){ l.set(i,Kd::val(1)); r.set(i,Kd::val(1)); }
  for(int i=0;i<N;++i){ m[i]=inVal<Kd>(NM("e",i)); a.set(i,Kd::val(m[i])); }
  int s=sx_choose("s",N+3),e=sx_choose("e",N+3),o=sx_choose("o",N+3); int dir=sx_choose("dir",3);
  static T buf[24]; uint64_t mb[24]; for(int i=0;i<24;++i){ mb[i]=(i>=G&&i<G+6)?inVal<Kd>(NM("b",i)):(uint64_t)(i*37+1)&mask<Kd>(); buf[i]=Kd::val(mb[i]); }
  bool bad,th;
  if(dir==2){ bad=s>e||o+(e-s)>N; th=throwsUima([&]{ a.copyFromArray(buf+G,s,e,o); }); SX_ASSERT(th==bad,"copyFromArray throws exactly when the range is not inside"); if(!bad) for(int i=s;i<e;++i) m[o+i-s]=mb[G+i]; }
  else { bad=s>e||e>N; if(dir==1) th=throwsUima([&]{ a.copyToArray((size_t)s,buf+G,(size_t)o,(size_t)(e-s)); }); else th=throwsUima([&]{ a.copyToArray((size_t)s,(size_t)e,buf+G,(size_t)o); }); SX_ASSERT(th==bad,"copyToArray throws exactly when the range is not inside"); if(!bad) for(int i=s;i<e;++i) mb[G+o+i-s]=m[i]; }
  symx_reached(bad?"bad range":"good range");
  for(int i=0;i<24;++i) SX_ASSERT(Kd::bits(buf[i])==mb[i],"buffer"); for(int i=0;i<N;++i) SX_ASSERT(Kd::bits(a.get(i))==m[i],"array after copy"); for(int i=0;i<2;++i) SX_ASSERT(Kd::bits(l.get(i))==1&&Kd::bits(r.get(i))==1,"neighbour after copy"); SX_ASSERT((int)a.size()==N,"size after copy"); }
#define KINDS(X) X(KInt) X(KFloat) X(KBool) X(KByte) X(KShort) X(KLong) X(KDouble)
#define E1(k) SYMX_SCENARIO_SETUP(elems_##k,setup){ elems<k>(); }
#define C1(k) SYMX_SCENARIO_SETUP(copy_##k,setup){ copies<k>(); }
KINDS(E1) KINDS(C1)
SYMX_SCENARIO_SETUP(elems_KFS,setup){ for(int i=0;i<2;++i) tgt[i]=g_cas->createFS(hT(g_def->ts().getTopType())); elems<KFS>(); }
E1(KStr)
SYMX_SCENARIO_SETUP(refcopies,setup){ int N=sx_choose("len",3); ArrayFS a=g_cas->createArrayFS(N); StringArrayFS s=g_cas->createStringArrayFS(N); FeatureStructure b[4]; UnicodeStringRef u[4]; symx_reached("reference copies"); int w=sx_choose("w",2);
  bool th=w?throwsUima([&]{ a.copyToArray((size_t)0,(size_t)N,b,(size_t)0); }):throwsUima([&]{ s.copyFromArray(u,0,N,0); }); SX_ASSERT(th,"unimplemented copies throw"); for(int i=0;i<N;++i) SX_ASSERT(!a.get(i).isValid()&&s.get(i).getBuffer()==NULL,"nothing copied"); }
// an array object made from something else is refused; accessors on an invalid array throw
SYMX_SCENARIO_SETUP(conversion,setup){ FeatureStructure f[10]; f[0]=g_cas->createIntArrayFS(1); f[1]=g_cas->createFloatArrayFS(1); f[2]=g_cas->createBooleanArrayFS(1); f[3]=g_cas->createByteArrayFS(1); f[4]=g_cas->createShortArrayFS(1); f[5]=g_cas->createLongArrayFS(1); f[6]=g_cas->createDoubleArrayFS(1); f[7]=g_cas->createArrayFS(1); f[8]=g_cas->createStringArrayFS(1); f[9]=g_cas->createFS(hT(g_def->ts().getTopType()));
  int i=sx_choose("i",10),j=sx_choose("j",9); bool th;
  switch(j){ case 0: th=throwsUima([&]{ IntArrayFS x(f[i]); x.get(0); }); break; case 1: th=throwsUima([&]{ FloatArrayFS x(f[i]); x.get(0); }); break; case 2: th=throwsUima([&]{ BooleanArrayFS x(f[i]); x.get(0); }); break; case 3: th=throwsUima([&]{ ByteArrayFS x(f[i]); x.get(0); }); break; case 4: th=throwsUima([&]{ ShortArrayFS x(f[i]); x.get(0); }); break; case 5: th=throwsUima([&]{ LongArrayFS x(f[i]); x.get(0); }); break; case 6: th=throwsUima([&]{ DoubleArrayFS x(f[i]); x.get(0); }); break; case 7: th=throwsUima([&]{ ArrayFS x(f[i]); x.get(0); }); break; default: th=throwsUima([&]{ StringArrayFS x(f[i]); x.get(0); }); }
  SX_ASSERT(th==(i!=j),"array conversion is type checked"); symx_reached("conversion");
  IntArrayFS n; SX_ASSERT(throwsUima([&]{ n.get(0); })&&throwsUima([&]{ n.size(); })&&throwsUima([&]{ n.set(0,1); }),"invalid array refuses access"); }
// longer arrays: one element written, whole and partial copies
static const int LAT[]={0,1,7,16,63,64,99};
template<class Kd> static void longer(){ typedef typename Kd::A A; typedef typename Kd::T T; enum{N=100}; A l=Kd::mk(3),a=Kd::mk(N),r=Kd::mk(3); static uint64_t m[N]; for(int i=0;i<N;++i){ m[i]=(0x9E3779B97F4A7C15ull*(i+1))&mask<Kd>(); a.set(i,Kd::val(m[i])); } int w=LAT[sx_choose("at",7)]; m[w]=inVal<Kd>("v"); a.set(w,Kd::val(m[w])); int op=sx_choose("op",4); static T buf[N+8]; for(int i=0;i<N+8;++i) buf[i]=Kd::val(5);
  int s=op==1?0:op==2?33:0,e=op==3?65:N; uint64_t five=Kd::bits(Kd::val(5)); if(op) a.copyToArray((size_t)s,(size_t)e,buf+4,(size_t)0); if(op==3){ A c=Kd::mk(N); c.copyFromArray(buf+4,0,e,N-e); unsigned bad=0; for(int i=0;i<N;++i){ uint64_t z=Kd::bits(c.get(i))^(i<N-e?0:m[i-(N-e)]); bad|=(unsigned)(z|z>>32); } SX_ASSERT(bad==0,"copied into a long array"); }
  unsigned bad=0; for(int i=0;i<N;++i){ uint64_t z=Kd::bits(a.get(i))^m[i]; bad|=(unsigned)(z|z>>32); } for(int i=0;i<3;++i) bad|=(unsigned)(Kd::bits(l.get(i))|Kd::bits(r.get(i))); if(op) for(int i=0;i<N+8;++i){ uint64_t z=Kd::bits(buf[i])^(i>=4&&i-4<e-s?m[i-4+s]:five); bad|=(unsigned)(z|z>>32); } SX_ASSERT(bad==0,"every element of a long array and every place of the buffer"); SX_ASSERT((int)a.size()==N&&throwsUima([&]{ a.get(N); })&&throwsUima([&]{ a.copyToArray((size_t)1,(size_t)(N+1),buf,(size_t)0); }),"bounds of a long array"); symx_reached("longer"); }
#define L1(k) SYMX_SCENARIO_SETUP(longer_##k,setup){ longer<k>(); }
KINDS(L1)
