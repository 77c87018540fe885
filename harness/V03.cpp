// V03: local Sofa data streams deliver exactly the Sofa's bytes.
// BOUND: streams over strings of 0..2 (thorough: 3) units over all code units and over arrays of all seven streamable types with 0 or 2 (8-byte types 1; thorough: 0..3) elements of any value; every sequence of 3 (strings 2; thorough: one more) operations out of reading 1 or 3 (thorough: 0..3) elements, positioning with any 64-bit offset from start, current position or end (counted backwards) or an unknown origin (once, thorough: twice), growing the heaps, and closing and reopening
// BOUND: strings and arrays of every streamable type of 8 lengths from 4 to 257 elements (one of three elements any value), read in blocks of 1, 7 or 64 elements to the end, then from the middle
// OUTSIDE: U+0000 in texts (known finding of C04); remote streams (the data comes from a dynamically loaded handler); element sizes other than the type's
#include "cascommon.hpp"
#include <uima/sofastream.hpp>
static void setup(){ hSetup([](HDef&){},[](HDef&){}); g_cas=(new uima::internal::CASImpl(*g_def,(size_t)24,(size_t)64,(size_t)16))->getInitialView(); }
static uint8_t d_[32]; static int n_,el_; static CAS* v_; static SofaDataStream* s_; static bool lone_;
static void add8(uint64_t v,int w){ memcpy(d_+n_,&v,w); n_+=w; }
static const int W[]={4,4,1,1,2,8,8};
static void make(int kind){ n_=0; el_=kind?W[kind-1]:1; v_=g_cas->createView(US("v")); int max=symx_thorough()?3:2; int n=symx_thorough()||!kind?sx_choose("n",max+1):(kind>4?1:2)*sx_choose("n",2); lone_=false;
  if(kind==0){ char16_t u[4]={0,0,0,0}; for(int i=0;i<n;++i) u[i]=sx_unit(nm("u",i)); v_->setDocumentText(UnicodeStringRef((UChar*)u,n));
    for(int i=0;i<n;++i){ uint32_t c=u[i]; if(c>=0xd800&&c<0xe000){ if(c<0xdc00&&i+1<n&&u[i+1]>=0xdc00&&u[i+1]<0xe000){ c=0x10000+((c-0xd800)<<10)+(u[++i]-0xdc00); } else { lone_=true; continue; } }
      if(c<0x80) add8(c,1); else if(c<0x800) add8(0xc0|(c>>6)|((0x80|(c&63))<<8),2); else if(c<0x10000) add8(0xe0|(c>>12)|((0x80|((c>>6)&63))<<8)|((0x80|(c&63))<<16),3); else add8(0xf0|(c>>18)|((0x80|((c>>12)&63))<<8)|((0x80|((c>>6)&63))<<16)|((0x80|(c&63))<<24),4); } }
  else { FeatureStructure fs; CAS* c=v_; switch(kind){
    case 1: { IntArrayFS a=c->createIntArrayFS(n); for(int i=0;i<n;++i){ uint32_t v=sx_u32(nm("e",i)); a.set(i,(int)v); add8(v,4); } fs=a; break; }
    case 2: { FloatArrayFS a=c->createFloatArrayFS(n); for(int i=0;i<n;++i){ uint32_t v=sx_u32(nm("e",i)); a.set(i,ffrom(v)); add8(v,4); } fs=a; break; }
    case 3: { BooleanArrayFS a=c->createBooleanArrayFS(n); for(int i=0;i<n;++i){ bool v=sx_bool(nm("e",i)); a.set(i,v); add8(v?1:0,1); } fs=a; break; }
    case 4: { ByteArrayFS a=c->createByteArrayFS(n); for(int i=0;i<n;++i){ uint8_t v=sx_u8(nm("e",i)); a.set(i,(char)v); add8(v,1); } fs=a; break; }
    case 5: { ShortArrayFS a=c->createShortArrayFS(n); for(int i=0;i<n;++i){ uint16_t v=sx_u16(nm("e",i)); a.set(i,(short)v); add8(v,2); } fs=a; break; }
    case 6: { LongArrayFS a=c->createLongArrayFS(n); for(int i=0;i<n;++i){ uint64_t v=sx_u64(nm("e",i)); a.set(i,(INT64)v); add8(v,8); } fs=a; break; }
    case 7: { DoubleArrayFS a=c->createDoubleArrayFS(n); for(int i=0;i<n;++i){ uint64_t v=sx_u64(nm("e",i)); a.set(i,dfrom(v)); add8(v,8); } fs=a; break; } }
    v_->setSofaDataArray(fs,US("m")); } }
static void grow(){ v_->createIntArrayFS(40); v_->createLongArrayFS(20); v_->createByteArrayFS(80); v_->createShortArrayFS(40); }
static int pos_;
static void same(const void* p,int from,int n){ unsigned d=0; const uint8_t* q=(const uint8_t*)p; for(int i=0;i<n;++i) d|=(unsigned)(q[i]^d_[from+i]); SX_ASSERT(d==0,"the bytes are the Sofa's"); }
static void read(int k){ uint8_t b[40]; memset(b,0xee,sizeof b); int r=-9; r=s_->read(b,el_,k); int want=k*el_; if(want>n_-pos_) want=n_-pos_; if(pos_==n_) SX_ASSERT(r==-1,"nothing after the end"); else { SX_ASSERT(r==want||r==want/el_,"the amount read"); } same(b,pos_,want); unsigned x=0; for(int i=want;i<40;++i) x|=(unsigned)(b[i]^0xee); SX_ASSERT(x==0,"nothing written beyond what was read"); pos_+=want; if(want) symx_reached("read"); }
static void seek(int i){ int org=sx_choose(nm("org",i),4); int64_t off=(int64_t)sx_u64(nm("off",i)); int o=org==0?SEEK_SET:org==1?SEEK_CUR:org==2?SEEK_END:77; int r=0; bool thr=throwsUima([&]{ r=s_->seek(off,o); });
  bool ok=org==0?(off>=0&&off<=n_):org==1?(off>=-(int64_t)pos_&&off<=n_-pos_):org==2?(off>=0&&off<=n_):false; SX_ASSERT(ok==(!thr&&r==0),"a position inside the data is reached, any other refused"); if(ok){ int p=org==0?(int)off:org==1?pos_+(int)off:n_-(int)off; pos_=(int)symx_pin((uint64_t)p); symx_reached("moved"); } else symx_reached("refused"); }
static void body(int kind){ make(kind); s_=v_->getSofaDataStream(); SX_ASSERT(s_!=0,"a Sofa with data has a stream"); bool thr=throwsUima([&]{ s_->open(); }); SX_ASSERT(thr==lone_,"a stream opens unless the text has no UTF-8 form"); if(thr) return; pos_=0;
  if(n_){ SX_ASSERT(s_->getTotalStreamSizeInBytes()==n_,"size of the stream"); }
  int seeks=0,n=(kind?3:2)+symx_thorough(); for(int i=0;i<n;++i){ int op=sx_choose(nm("op",i),4); if(op==1&&++seeks>1+symx_thorough()) symx_assume(false); if(op==0) read(symx_thorough()?sx_choose(nm("k",i),4):1+2*sx_choose(nm("k",i),2)); else if(op==1) seek(i); else if(op==2) grow(); else { s_->close(); uint8_t b[8]; SX_ASSERT(throwsUima([&]{ s_->read(b,el_,1); }),"a closed stream refuses to read"); s_->open(); pos_=0; } if(n_) SX_ASSERT(s_->howManyBytesAvailable()==n_-pos_,"remaining bytes"); }
  if(n_) same(s_->getDataPointer(),0,n_); delete s_; }
SYMX_SCENARIO_SETUP(string,setup){ body(0); }
SYMX_SCENARIO_SETUP(cells,setup){ body(1+sx_choose("kind",2)); }
SYMX_SCENARIO_SETUP(bytes,setup){ body(3+sx_choose("kind",2)); }
SYMX_SCENARIO_SETUP(wide,setup){ body(5+sx_choose("kind",3)); }
// longer data, read in blocks
static uint8_t D_[4200]; static int N_; static void add(uint64_t v,int w){ memcpy(D_+N_,&v,w); N_+=w; }
static const int CNT[]={4,5,8,16,33,64,100,257};
static void longer(int kind){ N_=0; int n=CNT[sx_choose("n",8)],at=sx_choose("at",3); at=at==0?0:at==1?n/2:n-1; v_=g_cas->createView(US("v")); el_=kind?W[kind-1]:1; uint64_t q=kind?sx_u64("e"):sx_range("e",0x800,0xd7ff); CAS* c=v_;
  if(kind==0){ static char16_t u[600]; int m=0; for(int i=0;i<n;++i){ if(i==at){ u[m++]=(char16_t)q; add(0xe0|(q>>12)|((0x80|((q>>6)&63))<<8)|((0x80|(q&63))<<16),3); } else if(i%9==4){ u[m++]=0xd83d; u[m++]=(char16_t)(0xde00+i%50); uint32_t z=0x1f600+i%50; add(0xf0|(z>>18)|((0x80|((z>>12)&63))<<8)|((0x80|((z>>6)&63))<<16)|((0x80|(z&63))<<24),4); } else if(i%5==2){ u[m++]=0xe9; add(0xc3|0xa9<<8,2); } else { u[m++]=(char16_t)(0x21+i%90); add(0x21+i%90,1); } } v_->setDocumentText(UnicodeStringRef((UChar*)u,m)); }
  else { FeatureStructure fs; switch(kind){
#define FILL(Arr,mk,Ty,val,w) { Arr a=c->mk(n); for(int i=0;i<n;++i){ uint64_t v=i==at?q:0x9E3779B97F4A7C15ull*(i+1); if(kind==3) v&=1; a.set(i,val); add(v,w); } fs=a; break; }
    case 1: FILL(IntArrayFS,createIntArrayFS,int,(int)v,4)
    case 2: FILL(FloatArrayFS,createFloatArrayFS,float,ffrom((uint32_t)v),4)
    case 3: FILL(BooleanArrayFS,createBooleanArrayFS,bool,v!=0,1)
    case 4: FILL(ByteArrayFS,createByteArrayFS,char,(char)v,1)
    case 5: FILL(ShortArrayFS,createShortArrayFS,short,(short)v,2)
    case 6: FILL(LongArrayFS,createLongArrayFS,INT64,(INT64)v,8)
    case 7: FILL(DoubleArrayFS,createDoubleArrayFS,double,dfrom(v),8) } v_->setSofaDataArray(fs,US("m")); }
  s_=v_->getSofaDataStream(); s_->open(); SX_ASSERT(s_->getTotalStreamSizeInBytes()==N_,"size of a longer stream"); static const int BL[]={1,7,64}; int k=BL[sx_choose("block",3)]; static uint8_t b[600]; int p=0; unsigned bad=0; for(int g=0;g<5000;++g){ int r=s_->read(b,el_,k); int want=k*el_; if(want>N_-p) want=N_-p; if(r==-1) break; bad|=(unsigned)(r!=want&&r!=want/el_); for(int i=0;i<want;++i) bad|=(unsigned)(b[i]^D_[p+i]); p+=want; } SX_ASSERT(p==N_&&bad==0,"a longer stream read in blocks gives the Sofa's bytes"); int mid=N_/el_/2*el_; SX_ASSERT(s_->seek(mid,SEEK_SET)==0&&s_->howManyBytesAvailable()==N_-mid,"back to the middle"); int r=s_->read(b,el_,1); bad=0; for(int i=0;i<el_;++i) bad|=(unsigned)(b[i]^D_[mid+i]); SX_ASSERT(r>0&&bad==0,"the element there"); s_->close(); delete s_; symx_reached("longer"); }
SYMX_SCENARIO_SETUP(longer_,setup){ longer(sx_choose("kind",8)); }
