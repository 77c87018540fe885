// Runtime of the symbolic executor: expression graph, shadow memory, path condition, solver queries and the
// coordinator that explores all paths (one forked worker per path).
#include <z3.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <signal.h>
#include <math.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <new>
#define EXP extern "C" __attribute__((visibility("default")))
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

enum { B_ADD=1,B_SUB,B_MUL,B_UDIV,B_SDIV,B_UREM,B_SREM,B_SHL,B_LSHR,B_ASHR,B_AND,B_OR,B_XOR,
  B_UMIN,B_UMAX,B_SMIN,B_SMAX,B_UADDO,B_USUBO,B_SADDO,B_SSUBO,B_UMULO,B_SMULO,B_UADDSAT,B_USUBSAT,B_SADDSAT,B_SSUBSAT,B_FADD,B_FSUB,B_FMUL,B_FDIV };
enum { C_TRUNC=1,C_ZEXT,C_SEXT,C_FPTRUNC,C_FPEXT,C_FPTOSI,C_FPTOUI,C_SITOFP,C_UITOFP,C_BSWAP,C_CTPOP,C_CTLZ,C_CTTZ,C_ABS,C_FABS,C_FNEG };
// node ops
enum { N_CONST=100,N_VAR,N_EQ,N_ULT,N_ULE,N_SLT,N_SLE,N_NOT,N_ZEXT,N_SEXT,N_EXTRACT,N_CONCAT,N_ITE,N_FOEQ,N_FOLT,N_FOLE,N_FUNO,
  N_FPTRUNC,N_FPEXT,N_FPTOSI,N_FPTOUI,N_SITOFP,N_UITOFP };

struct Sup { std::vector<u16> v; };
struct Node { u8 op,w; u16 aux; u32 id,sent; Node *a,*b,*c; u64 k,val,h; Sup* sup; Z3_ast z; Node* next; };

static inline u64 msk(unsigned w){ return w>=64? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v,unsigned w){ if(w>=64) return (i64)v; v&=msk(w); return (v>>(w-1))&1 ? (i64)(v|~msk(w)) : (i64)v; }
static inline u64 mix(u64 h,u64 x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>33; return h; }

[[noreturn]] static void fatal(const std::string& m);

// ---------------------------------------------------------------- nodes
static const u32 HT=1u<<18; static Node* ht[HT]; static u32 nextId=1;
static char* arena=nullptr; static size_t arenaLeft=0;
static Node* allocNode(){ if(arenaLeft<sizeof(Node)){ arenaLeft=1<<20; arena=(char*)mmap(0,arenaLeft,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(arena==MAP_FAILED) fatal("out of memory"); } Node* n=(Node*)arena; arena+=sizeof(Node); arenaLeft-=sizeof(Node); return n; }
static Sup emptySup; static std::map<std::vector<u16>,Sup*> supTab; static std::map<std::pair<Sup*,Sup*>,Sup*> supMemo;
static Sup* internSup(std::vector<u16> v){ if(v.empty()) return &emptySup; auto& s=supTab[v]; if(!s){ s=new Sup; s->v=v; } return s; }
static Sup* supU(Sup* a,Sup* b){ if(a==b||b->v.empty()) return a; if(a->v.empty()) return b; if(a>b) std::swap(a,b); auto& m=supMemo[{a,b}]; if(!m){ std::vector<u16> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r)); m=internSup(r);} return m; }

static double fb(u64 v,unsigned w){ if(w==32){ float f; u32 x=(u32)v; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&v,8); return d; }
static u64 bf(double d,unsigned w){ if(w==32){ float f=(float)d; u32 x; memcpy(&x,&f,4); return x; } u64 x; memcpy(&x,&d,8); return x; }
static u64 fop(int op,u64 a,u64 b,unsigned w){
  if(w==32){ float x=(float)fb(a,32),y=(float)fb(b,32),r=0; switch(op){case B_FADD:r=x+y;break;case B_FSUB:r=x-y;break;case B_FMUL:r=x*y;break;case B_FDIV:r=x/y;break;} return bf(r,32); }
  double x=fb(a,64),y=fb(b,64),r=0; switch(op){case B_FADD:r=x+y;break;case B_FSUB:r=x-y;break;case B_FMUL:r=x*y;break;case B_FDIV:r=x/y;break;} return bf(r,64); }

static u64 evalOp(int op,unsigned w,unsigned aux,Node* na,Node* nb,Node* nc){
  u64 a=na?na->val:0,b=nb?nb->val:0,c=nc?nc->val:0; unsigned aw=na?na->w:0;
  switch(op){
  case B_ADD: return (a+b)&msk(w); case B_SUB: return (a-b)&msk(w); case B_MUL: return (a*b)&msk(w);
  case B_UDIV: return b? a/b : msk(w); case B_UREM: return b? a%b : a;
  case B_SDIV: { i64 x=sx(a,w),y=sx(b,w); if(y==0) return x<0?1:msk(w); if(y==-1) return (u64)(0-(u64)x)&msk(w); return (u64)(x/y)&msk(w); }
  case B_SREM: { i64 x=sx(a,w),y=sx(b,w); if(y==0) return a; if(y==-1) return 0; return (u64)(x%y)&msk(w); }
  case B_SHL: return b>=w?0:(a<<b)&msk(w); case B_LSHR: return b>=w?0:a>>b; case B_ASHR: return (u64)(sx(a,w)>>(b>=w?(w-1):b))&msk(w);
  case B_AND: return a&b; case B_OR: return a|b; case B_XOR: return a^b;
  case B_UADDO: return ((u128)a+b)>msk(w); case B_USUBO: return a<b; case B_UMULO: return ((u128)a*b)>msk(w);
  case B_SADDO: { i128 r=(i128)sx(a,w)+sx(b,w); return r!=(i128)sx((u64)r,w); } case B_SSUBO: { i128 r=(i128)sx(a,w)-sx(b,w); return r!=(i128)sx((u64)r,w); }
  case B_SMULO: { i128 r=(i128)sx(a,w)*sx(b,w); return r!=(i128)sx((u64)r,w); }
  case B_FADD: case B_FSUB: case B_FMUL: case B_FDIV: return fop(op,a,b,w);
  case N_EQ: return a==b; case N_ULT: return a<b; case N_ULE: return a<=b; case N_SLT: return sx(a,aw)<sx(b,aw); case N_SLE: return sx(a,aw)<=sx(b,aw);
  case N_NOT: return a^1; case N_ZEXT: return a; case N_SEXT: return (u64)sx(a,aw)&msk(w); case N_EXTRACT: return (a>>aux)&msk(w);
  case N_CONCAT: return ((a<<nb->w)|b)&msk(w); case N_ITE: return a?b:c;
  case N_FOEQ: return fb(a,aw)==fb(b,aw); case N_FOLT: return fb(a,aw)<fb(b,aw); case N_FOLE: return fb(a,aw)<=fb(b,aw); case N_FUNO: return isnan(fb(a,aw))||isnan(fb(b,aw));
  case N_FPTRUNC: return bf(fb(a,64),32); case N_FPEXT: return bf(fb(a,32),64);
  case N_FPTOSI: { double d=fb(a,aw); if(isnan(d)||d>=9.3e18||d<=-9.3e18) return 1ull<<(w-1); return (u64)(i64)d&msk(w); }
  case N_FPTOUI: { double d=fb(a,aw); if(isnan(d)||d<0||d>=1.8446744073709552e19) return msk(w); return (u64)d&msk(w); }
  case N_SITOFP: return w==32? bf((float)sx(a,aw),32):bf((double)sx(a,aw),64);
  case N_UITOFP: { if(w==32){ float f=(float)a; u32 x; memcpy(&x,&f,4); return x; } return bf((double)a,64); }
  }
  fatal("evalOp");
}
static Node* raw(int op,unsigned w,unsigned aux,Node*a,Node*b,Node*c,u64 k,u64 val,u64 extraHash){
  u64 h=mix(mix(mix(op,w),aux),k); h=mix(h,a?a->h:1); h=mix(h,b?b->h:2); h=mix(h,c?c->h:3); h=mix(h,extraHash);
  Node** p=&ht[h&(HT-1)];
  for(Node* n=*p;n;n=n->next) if(n->h==h&&n->op==op&&n->w==w&&n->aux==aux&&n->a==a&&n->b==b&&n->c==c&&n->k==k) return n;
  Node* n=allocNode(); memset(n,0,sizeof *n); n->op=op;n->w=w;n->aux=aux;n->a=a;n->b=b;n->c=c;n->k=k;n->val=val;n->h=h;n->id=nextId++;
  n->sup=&emptySup; if(a) n->sup=supU(n->sup,a->sup); if(b) n->sup=supU(n->sup,b->sup); if(c) n->sup=supU(n->sup,c->sup);
  n->next=*p; *p=n; return n;
}
static Node* cst(u64 v,unsigned w){ v&=msk(w); return raw(N_CONST,w,0,0,0,0,v,v,0); }
static inline bool isC(Node* n){ return n->op==N_CONST; }
static Node* mk(int op,unsigned w,unsigned aux,Node*a,Node*b=nullptr,Node*c=nullptr);
static Node* notN(Node* a){ return mk(N_NOT,1,0,a); }
static Node* mk(int op,unsigned w,unsigned aux,Node*a,Node*b,Node*c){
  if((!a||isC(a))&&(!b||isC(b))&&(!c||isC(c))) return cst(evalOp(op,w,aux,a,b,c),w);
  switch(op){
  case B_ADD: case B_MUL: case B_AND: case B_OR: case B_XOR: case N_EQ: if(isC(a)) std::swap(a,b); break; default:; }
  switch(op){
  case B_ADD: if(isC(b)){ if(b->val==0) return a; if(a->op==B_ADD&&isC(a->b)) return mk(B_ADD,w,0,a->a,cst(a->b->val+b->val,w)); } break;
  case B_SUB: if(a==b) return cst(0,w); if(isC(b)) return mk(B_ADD,w,0,a,cst(0-b->val,w)); break;
  case B_MUL: if(isC(b)){ if(b->val==1) return a; if(b->val==0) return b; if((b->val&(b->val-1))==0) return mk(B_SHL,w,0,a,cst(__builtin_ctzll(b->val),w)); } break;
  case B_AND: if(a==b) return a; if(isC(b)){ if(b->val==0) return b; if(b->val==msk(w)) return a; if(a->op==N_ZEXT&&(b->val&msk(a->a->w))==msk(a->a->w)) return a;
      if(a->op==N_ZEXT) return mk(N_ZEXT,w,0,mk(B_AND,a->a->w,0,a->a,cst(b->val,a->a->w)));
      if(a->op==N_ITE&&isC(a->b)&&isC(a->c)) return mk(N_ITE,w,0,a->a,cst(a->b->val&b->val,w),cst(a->c->val&b->val,w)); } break;
  case B_OR: if(a==b) return a; if(isC(b)){ if(b->val==0) return a; if(b->val==msk(w)) return b; } break;
  case B_XOR: if(a==b) return cst(0,w); if(isC(b)){ if(b->val==0) return a; if(w==1) return notN(a); } break;
  case B_SHL: case B_LSHR: case B_ASHR: if(isC(b)&&b->val==0) return a; if(isC(a)&&a->val==0) return a;
      if(op==B_LSHR&&isC(b)&&b->val<w) return mk(N_ZEXT,w,0,mk(N_EXTRACT,w-b->val,b->val,a));
      break;
  case N_NOT: if(a->op==N_NOT) return a->a; break;
  case N_ZEXT: if(a->w==w) return a; if(a->op==N_ZEXT) return mk(N_ZEXT,w,0,a->a); break;
  case N_SEXT: if(a->w==w) return a; if(a->op==N_ZEXT) return mk(N_ZEXT,w,0,a->a); if(a->op==N_SEXT) return mk(N_SEXT,w,0,a->a); break;
  case N_EXTRACT:
    if(aux==0&&w==a->w) return a;
    if(a->op==N_EXTRACT) return mk(N_EXTRACT,w,aux+a->aux,a->a);
    if(a->op==N_ZEXT||a->op==N_SEXT){ unsigned iw=a->a->w; if(aux+w<=iw) return mk(N_EXTRACT,w,aux,a->a); if(a->op==N_ZEXT){ if(aux>=iw) return cst(0,w); return mk(N_ZEXT,w,0,mk(N_EXTRACT,iw-aux,aux,a->a)); }
       if(aux==0) return mk(N_SEXT,w,0,a->a); }
    if(a->op==N_CONCAT){ unsigned lw=a->b->w; if(aux+w<=lw) return mk(N_EXTRACT,w,aux,a->b); if(aux>=lw) return mk(N_EXTRACT,w,aux-lw,a->a); }
    if(a->op==N_ITE&&(isC(a->b)||isC(a->c))) return mk(N_ITE,w,0,a->a,mk(N_EXTRACT,w,aux,a->b),mk(N_EXTRACT,w,aux,a->c));
    if(aux==0&&(a->op==B_AND||a->op==B_OR||a->op==B_XOR||a->op==B_ADD||a->op==B_SUB)&&isC(a->b)) return mk(a->op,w,0,mk(N_EXTRACT,w,0,a->a),cst(a->b->val,w));
    break;
  case N_CONCAT:
    if(isC(a)&&a->val==0) return mk(N_ZEXT,w,0,b);
    if(a->op==N_EXTRACT&&b->op==N_EXTRACT&&a->a==b->a&&a->aux==b->aux+b->w) return mk(N_EXTRACT,w,b->aux,a->a);
    if(b->op==N_EXTRACT&&b->aux==0&&a->op==N_EXTRACT&&a->a==b->a&&a->aux==b->w) return mk(N_EXTRACT,w,0,a->a);
    break;
  case N_ITE: if(isC(a)) return a->val?b:c; if(b==c) return b; if(a->op==N_NOT) return mk(N_ITE,w,0,a->a,c,b);
    if(w==1&&isC(b)&&isC(c)) return b->val? a:notN(a); break;
  case N_EQ:
    if(a==b) return cst(1,1);
    if(isC(b)){
      if(a->w==1) return b->val? a:notN(a);
      if(a->op==N_ZEXT){ if(b->val>msk(a->a->w)) return cst(0,1); return mk(N_EQ,1,0,a->a,cst(b->val,a->a->w)); }
      if(a->op==N_SEXT){ u64 t=b->val&msk(a->a->w); if(((u64)sx(t,a->a->w)&msk(a->w))!=b->val) return cst(0,1); return mk(N_EQ,1,0,a->a,cst(t,a->a->w)); }
      if(a->op==B_ADD&&isC(a->b)) return mk(N_EQ,1,0,a->a,cst(b->val-a->b->val,a->w));
      if(a->op==B_XOR&&isC(a->b)) return mk(N_EQ,1,0,a->a,cst(b->val^a->b->val,a->w));
      if(a->op==N_ITE&&isC(a->b)&&isC(a->c)){ bool x=a->b->val==b->val,y=a->c->val==b->val; if(x&&y) return cst(1,1); if(x) return a->a; if(y) return notN(a->a); return cst(0,1); }
      if(a->op==N_ITE&&(isC(a->b)||isC(a->c))) return mk(N_ITE,1,0,a->a,mk(N_EQ,1,0,a->b,b),mk(N_EQ,1,0,a->c,b));
    } else if(a->op==N_ZEXT&&b->op==N_ZEXT&&a->a->w==b->a->w) return mk(N_EQ,1,0,a->a,b->a);
      else if(a->op==N_SEXT&&b->op==N_SEXT&&a->a->w==b->a->w) return mk(N_EQ,1,0,a->a,b->a);
      else if(a->op==B_ADD&&b->op==B_ADD&&isC(a->b)&&a->b==b->b) return mk(N_EQ,1,0,a->a,b->a);
    break;
  case N_ULT: if(a==b) return cst(0,1); if(isC(b)&&b->val==0) return cst(0,1); if(isC(b)&&b->val==1) return mk(N_EQ,1,0,a,cst(0,a->w));
    if(a->op==N_ZEXT&&isC(b)){ if(b->val>msk(a->a->w)) return cst(1,1); return mk(N_ULT,1,0,a->a,cst(b->val,a->a->w)); }
    if(b->op==N_ZEXT&&isC(a)){ if(a->val>=msk(b->a->w)) return cst(0,1); return mk(N_ULT,1,0,cst(a->val,b->a->w),b->a); }
    if(a->op==N_ZEXT&&b->op==N_ZEXT&&a->a->w==b->a->w) return mk(N_ULT,1,0,a->a,b->a); break;
  case N_ULE: if(a==b) return cst(1,1); return notN(mk(N_ULT,1,0,b,a));
  case N_SLT: if(a==b) return cst(0,1);
    if(a->op==N_ZEXT&&isC(b)&&sx(b->val,b->w)>=0){ if(b->val>msk(a->a->w)) return cst(1,1); return mk(N_ULT,1,0,a->a,cst(b->val,a->a->w)); }
    if(a->op==N_ZEXT&&isC(b)&&sx(b->val,b->w)<0) return cst(0,1);
    if(b->op==N_ZEXT&&isC(a)&&sx(a->val,a->w)>=0){ if(a->val>=msk(b->a->w)) return cst(0,1); return mk(N_ULT,1,0,cst(a->val,b->a->w),b->a); }
    if(b->op==N_ZEXT&&isC(a)&&sx(a->val,a->w)<0) return cst(1,1);
    break;
  case N_SLE: if(a==b) return cst(1,1); return notN(mk(N_SLT,1,0,b,a));
  }
  return raw(op,w,aux,a,b,c,0,evalOp(op,w,aux,a,b,c),0);
}
static inline Node* nodeOr(Node* e,u64 v,unsigned w){ if(e){ if(e->w!=w) fatal("width mismatch "+std::to_string(e->w)+" vs "+std::to_string(w)+" op "+std::to_string(e->op)); if(e->val!=(v&msk(w))) fatal("value mismatch op "+std::to_string(e->op)); return e; } return cst(v,w); }
static inline Node* ret(Node* n){ return isC(n)?nullptr:n; }

// ---------------------------------------------------------------- shared statistics
struct Shared {
  volatile u64 queries,sat,unsat,unknown,cached,solverNs,branches,asserts,concs,nativeOverwrites,nodes,assumesKilled,memChecks;
  volatile u32 nsites; const char* sites[4096]; volatile u8 siteKind[4096]; volatile u64 siteCount[4096];
  volatile u64 cache[1u<<20];
};
static Shared* SH;
static void siteHit(const char* s,int kind){ if(!s||!SH) return; u64 h=((u64)s*0x9e3779b97f4a7c15ull)>>52; for(u32 i=0;i<4096;++i){ u32 k=(h+i)&4095; const char* c=__atomic_load_n(&SH->sites[k],__ATOMIC_RELAXED); if(!c){ const char* z=nullptr; if(__atomic_compare_exchange_n(&SH->sites[k],&z,s,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)) c=s; else c=z; } if(c==s){ __atomic_or_fetch(&SH->siteKind[k],(u8)kind,__ATOMIC_RELAXED); __atomic_fetch_add(&SH->siteCount[k],1,__ATOMIC_RELAXED); return; } } }
#define STAT(x) __atomic_fetch_add(&SH->x,1,__ATOMIC_RELAXED)

// ---------------------------------------------------------------- worker state
typedef std::map<std::string,u64> Assign;
struct PCE { Node* n; bool pol; };
static std::vector<PCE> PC; static std::unordered_map<u32,bool> inPC; 
static std::vector<std::string> varNames; static std::vector<Node*> varNodes;
static Assign ASG; static u64 BOUND=0; static u64 EXPECT=0; static u64 pathHash=1;
static int outFd=-1; static bool active=false; static u64 obsHash=1469598103934665603ull; static u64 nobs=0;
static bool thoroughFlag=false; static u32 qTimeout=20000;
static void wr(const void* p,size_t n){ const char* c=(const char*)p; while(n){ ssize_t k=write(outFd,c,n); if(k<0){ if(errno==EINTR) continue; _exit(9);} c+=k; n-=k; } }
static void msg(char t,const std::string& s){ std::string b; b.push_back(t); u32 n=s.size(); b.append((char*)&n,4); b+=s; wr(b.data(),b.size()); }
[[noreturn]] static void fatal(const std::string& m){ if(outFd>=0){ msg('E',m); _exit(0);} fprintf(stderr,"symx fatal: %s\n",m.c_str()); abort(); }
static std::string packAssign(const Assign& a){ std::string s; for(auto& p:a){ if(!s.empty()) s+=';'; char b[32]; snprintf(b,32,"%llx",(unsigned long long)p.second); s+=p.first+"="+b; } return s; }
static Assign parseAssign(const std::string& s){ Assign a; size_t i=0; while(i<s.size()){ size_t e=s.find(';',i); if(e==std::string::npos) e=s.size(); size_t q=s.rfind('=',e); if(q!=std::string::npos&&q>=i) a[s.substr(i,q-i)]=strtoull(s.substr(q+1,e-q-1).c_str(),0,16); i=e+1; } return a; }
static std::vector<u64> EXCL;
static void sendItem(u64 bound,u64 expect,const Assign& a,std::vector<u64>* ex=nullptr){ char b[64]; snprintf(b,64,"%llu %llu %llu ",(unsigned long long)bound,(unsigned long long)expect,(unsigned long long)(ex?ex->size():0)); std::string s=b; if(ex) for(u64 x:*ex){ snprintf(b,64,"%llu ",(unsigned long long)x); s+=b; } msg('I',s+packAssign(a)); }
static std::set<std::string> sentViol;
static void sendViol(const char* label,const Assign& a,const char* site){ if(!sentViol.insert(label).second) return; msg('V',std::string(label)+"\n"+packAssign(a)+"\n"+(site?site:"")); }
static Assign curAssign(){ Assign a; for(size_t i=0;i<varNames.size();++i) a[varNames[i]]=varNodes[i]->val; return a; }

// ---------------------------------------------------------------- z3
static Z3_context ctx; static Z3_solver solver; static Z3_sort sorts[65];
static void z3err(Z3_context c,Z3_error_code e){ fatal(std::string("z3: ")+Z3_get_error_msg(c,e)); }
static Z3_sort bvs(unsigned w){ if(!sorts[w]) { sorts[w]=Z3_mk_bv_sort(ctx,w); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,sorts[w])); } return sorts[w]; }
static void z3init(){ if(ctx) return; Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,z3err);
  solver=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,solver); Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); if(getenv("SYMX_RL")) Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),20000000); else Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),qTimeout); Z3_solver_set_params(ctx,solver,p);
  if(getenv("SYMX_WARM")){ Z3_sort b=Z3_mk_bv_sort(ctx,32); Z3_ast x=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,"warm!"),b); Z3_inc_ref(ctx,x); for(int i=0;i<2;++i){ Z3_solver_push(ctx,solver); Z3_ast m=Z3_mk_bvadd(ctx,x,x); Z3_inc_ref(ctx,m); Z3_ast k=Z3_mk_unsigned_int64(ctx,77,b); Z3_inc_ref(ctx,k); Z3_ast l=Z3_mk_bvult(ctx,m,k); Z3_inc_ref(ctx,l); Z3_solver_assert(ctx,solver,l); Z3_solver_check(ctx,solver); Z3_solver_pop(ctx,solver,1); } } }
// reference-counted context: every intermediate term is kept alive
static Z3_ast KA(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
static Z3_sort KS(Z3_sort a){ Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,a)); return a; }
#define Z3_mk_and(...) KA(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_bvadd(...) KA(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvadd_no_overflow(...) KA(Z3_mk_bvadd_no_overflow(__VA_ARGS__))
#define Z3_mk_bvadd_no_underflow(...) KA(Z3_mk_bvadd_no_underflow(__VA_ARGS__))
#define Z3_mk_bvand(...) KA(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) KA(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) KA(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) KA(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvmul_no_overflow(...) KA(Z3_mk_bvmul_no_overflow(__VA_ARGS__))
#define Z3_mk_bvmul_no_underflow(...) KA(Z3_mk_bvmul_no_underflow(__VA_ARGS__))
#define Z3_mk_bvor(...) KA(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) KA(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvshl(...) KA(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvslt(...) KA(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) KA(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) KA(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvsub_no_overflow(...) KA(Z3_mk_bvsub_no_overflow(__VA_ARGS__))
#define Z3_mk_bvsub_no_underflow(...) KA(Z3_mk_bvsub_no_underflow(__VA_ARGS__))
#define Z3_mk_bvudiv(...) KA(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvult(...) KA(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) KA(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) KA(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) KA(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) KA(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_eq(...) KA(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) KA(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) KA(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_fpa_add(...) KA(Z3_mk_fpa_add(__VA_ARGS__))
#define Z3_mk_fpa_div(...) KA(Z3_mk_fpa_div(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) KA(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) KA(Z3_mk_fpa_is_nan(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) KA(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) KA(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) KA(Z3_mk_fpa_mul(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) KA(Z3_mk_fpa_rne(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) KA(Z3_mk_fpa_rtz(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) KA(Z3_mk_fpa_sub(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) KA(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) KA(Z3_mk_fpa_to_fp_float(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) KA(Z3_mk_fpa_to_fp_signed(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) KA(Z3_mk_fpa_to_fp_unsigned(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) KA(Z3_mk_fpa_to_ieee_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) KA(Z3_mk_fpa_to_sbv(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) KA(Z3_mk_fpa_to_ubv(__VA_ARGS__))
#define Z3_mk_iff(...) KA(Z3_mk_iff(__VA_ARGS__))
#define Z3_mk_ite(...) KA(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_not(...) KA(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_or(...) KA(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_sign_ext(...) KA(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_true(...) KA(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) KA(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_xor(...) KA(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) KA(Z3_mk_zero_ext(__VA_ARGS__))
#define Z3_mk_fpa_sort_32(...) KS(Z3_mk_fpa_sort_32(__VA_ARGS__))
#define Z3_mk_fpa_sort_64(...) KS(Z3_mk_fpa_sort_64(__VA_ARGS__))
static Z3_ast zb(Z3_ast b){ return Z3_mk_ite(ctx,b,Z3_mk_unsigned_int64(ctx,1,bvs(1)),Z3_mk_unsigned_int64(ctx,0,bvs(1))); }
static Z3_sort fps(unsigned w){ return w==32?Z3_mk_fpa_sort_32(ctx):Z3_mk_fpa_sort_64(ctx); }
static Z3_ast tof(Z3_ast a,unsigned w){ return Z3_mk_fpa_to_fp_bv(ctx,a,fps(w)); }
static Z3_ast tobv(Z3_ast a){ return Z3_mk_fpa_to_ieee_bv(ctx,a); }
static Z3_ast zx(Node* n);
// boolean-sorted translation of 1-bit nodes avoids ite towers
static std::unordered_map<u32,Z3_ast> boolMemo;
static Z3_ast zbool(Node* n){
  auto it=boolMemo.find(n->id); if(it!=boolMemo.end()) return it->second;
  Z3_ast r;
  switch(n->op){
  case N_CONST: r=n->val?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case N_EQ: r= n->a->w==1? Z3_mk_iff(ctx,zbool(n->a),zbool(n->b)) : Z3_mk_eq(ctx,zx(n->a),zx(n->b)); break;
  case N_ULT: r=Z3_mk_bvult(ctx,zx(n->a),zx(n->b)); break; case N_SLT: r=Z3_mk_bvslt(ctx,zx(n->a),zx(n->b)); break;
  case N_NOT: r=Z3_mk_not(ctx,zbool(n->a)); break;
  case B_AND: { Z3_ast x[2]={zbool(n->a),zbool(n->b)}; r=Z3_mk_and(ctx,2,x); break; }
  case B_OR: { Z3_ast x[2]={zbool(n->a),zbool(n->b)}; r=Z3_mk_or(ctx,2,x); break; }
  case B_XOR: r=Z3_mk_xor(ctx,zbool(n->a),zbool(n->b)); break;
  case N_ITE: r=Z3_mk_ite(ctx,zbool(n->a),zbool(n->b),zbool(n->c)); break;
  case N_FOEQ: r=Z3_mk_fpa_eq(ctx,tof(zx(n->a),n->a->w),tof(zx(n->b),n->b->w)); break;
  case N_FOLT: r=Z3_mk_fpa_lt(ctx,tof(zx(n->a),n->a->w),tof(zx(n->b),n->b->w)); break;
  case N_FOLE: r=Z3_mk_fpa_leq(ctx,tof(zx(n->a),n->a->w),tof(zx(n->b),n->b->w)); break;
  case N_FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,tof(zx(n->a),n->a->w)),Z3_mk_fpa_is_nan(ctx,tof(zx(n->b),n->b->w))}; r=Z3_mk_or(ctx,2,x); break; }
  case B_UADDO: r=Z3_mk_not(ctx,Z3_mk_bvadd_no_overflow(ctx,zx(n->a),zx(n->b),false)); break;
  case B_USUBO: r=Z3_mk_bvult(ctx,zx(n->a),zx(n->b)); break;
  case B_UMULO: r=Z3_mk_not(ctx,Z3_mk_bvmul_no_overflow(ctx,zx(n->a),zx(n->b),false)); break;
  case B_SADDO: { Z3_ast x[2]={Z3_mk_bvadd_no_overflow(ctx,zx(n->a),zx(n->b),true),Z3_mk_bvadd_no_underflow(ctx,zx(n->a),zx(n->b))}; r=Z3_mk_not(ctx,Z3_mk_and(ctx,2,x)); break; }
  case B_SSUBO: { Z3_ast x[2]={Z3_mk_bvsub_no_overflow(ctx,zx(n->a),zx(n->b)),Z3_mk_bvsub_no_underflow(ctx,zx(n->a),zx(n->b),true)}; r=Z3_mk_not(ctx,Z3_mk_and(ctx,2,x)); break; }
  case B_SMULO: { Z3_ast x[2]={Z3_mk_bvmul_no_overflow(ctx,zx(n->a),zx(n->b),true),Z3_mk_bvmul_no_underflow(ctx,zx(n->a),zx(n->b))}; r=Z3_mk_not(ctx,Z3_mk_and(ctx,2,x)); break; }
  default: r=Z3_mk_eq(ctx,zx(n),Z3_mk_unsigned_int64(ctx,1,bvs(1)));
  }
  Z3_inc_ref(ctx,r); boolMemo[n->id]=r; return r;
}
static Z3_ast zx(Node* n){
  if(n->z) return n->z;
  Z3_ast r; unsigned w=n->w; (void)w;
  #define A zx(n->a)
  #define Bb zx(n->b)
  switch(n->op){
  case N_CONST: r=Z3_mk_unsigned_int64(ctx,n->val,bvs(w)); break;
  case N_VAR: r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,varNames[n->k].c_str()),bvs(w)); break;
  case B_ADD: r=Z3_mk_bvadd(ctx,A,Bb); break; case B_SUB: r=Z3_mk_bvsub(ctx,A,Bb); break; case B_MUL: r=Z3_mk_bvmul(ctx,A,Bb); break;
  case B_UDIV: r=Z3_mk_bvudiv(ctx,A,Bb); break; case B_SDIV: r=Z3_mk_bvsdiv(ctx,A,Bb); break; case B_UREM: r=Z3_mk_bvurem(ctx,A,Bb); break; case B_SREM: r=Z3_mk_bvsrem(ctx,A,Bb); break;
  case B_SHL: r=Z3_mk_bvshl(ctx,A,Bb); break; case B_LSHR: r=Z3_mk_bvlshr(ctx,A,Bb); break; case B_ASHR: r=Z3_mk_bvashr(ctx,A,Bb); break;
  case B_AND: if(w==1) r=zb(zbool(n)); else r=Z3_mk_bvand(ctx,A,Bb); break; case B_OR: if(w==1) r=zb(zbool(n)); else r=Z3_mk_bvor(ctx,A,Bb); break; case B_XOR: if(w==1) r=zb(zbool(n)); else r=Z3_mk_bvxor(ctx,A,Bb); break;
  case B_FADD: r=tobv(Z3_mk_fpa_add(ctx,Z3_mk_fpa_rne(ctx),tof(A,w),tof(Bb,w))); break; case B_FSUB: r=tobv(Z3_mk_fpa_sub(ctx,Z3_mk_fpa_rne(ctx),tof(A,w),tof(Bb,w))); break;
  case B_FMUL: r=tobv(Z3_mk_fpa_mul(ctx,Z3_mk_fpa_rne(ctx),tof(A,w),tof(Bb,w))); break; case B_FDIV: r=tobv(Z3_mk_fpa_div(ctx,Z3_mk_fpa_rne(ctx),tof(A,w),tof(Bb,w))); break;
  case N_ZEXT: r=Z3_mk_zero_ext(ctx,w-n->a->w,A); break; case N_SEXT: r=Z3_mk_sign_ext(ctx,w-n->a->w,A); break;
  case N_EXTRACT: r=Z3_mk_extract(ctx,n->aux+w-1,n->aux,A); break; case N_CONCAT: r=Z3_mk_concat(ctx,A,Bb); break;
  case N_ITE: if(w==1) r=zb(zbool(n)); else r=Z3_mk_ite(ctx,zbool(n->a),zx(n->b),zx(n->c)); break;
  case N_FPTRUNC: r=tobv(Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),tof(A,64),fps(32))); break;
  case N_FPEXT: r=tobv(Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),tof(A,32),fps(64))); break;
  case N_FPTOSI: r=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),tof(A,n->a->w),w); break; case N_FPTOUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),tof(A,n->a->w),w); break;
  case N_SITOFP: r=tobv(Z3_mk_fpa_to_fp_signed(ctx,Z3_mk_fpa_rne(ctx),A,fps(w))); break; case N_UITOFP: r=tobv(Z3_mk_fpa_to_fp_unsigned(ctx,Z3_mk_fpa_rne(ctx),A,fps(w))); break;
  default: r=zb(zbool(n));
  }
  Z3_inc_ref(ctx,r); n->z=r; return r;
}
static u64 nowNs(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000ull+t.tv_nsec; }
static double T0;

// ---------------------------------------------------------------- solver processes
// One long-lived process per job holds z3 (a fresh z3 per path would spend most of its time on start-up).  A worker sends
// the nodes it has not sent yet, the asserted literals and the variables whose values it wants; ids are per worker session.
static int srvFd=-1; static bool srvNew=true;
template<class T> static void put(std::string& b,T v){ b.append((const char*)&v,sizeof v); }
static bool rdAll(int fd,void* p,size_t n){ char* c=(char*)p; while(n){ ssize_t k=read(fd,c,n); if(k<0){ if(errno==EINTR) continue; return false; } if(k==0) return false; c+=k; n-=k; } return true; }
static bool wrAll(int fd,const void* p,size_t n){ const char* c=(const char*)p; while(n){ ssize_t k=write(fd,c,n); if(k<0){ if(errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
static void sendNodes(Node* root,std::string& b,u32& cnt){
  static std::vector<Node*> st; st.push_back(root);
  while(!st.empty()){ Node* n=st.back(); if(n->sent){ st.pop_back(); continue; }
    bool ready=true; for(Node* c:{n->a,n->b,n->c}) if(c&&!c->sent){ st.push_back(c); ready=false; }
    if(!ready) continue; st.pop_back(); n->sent=1; ++cnt;
    put<u32>(b,n->id); put<u8>(b,n->op); put<u8>(b,n->w); put<u16>(b,n->aux); put<u32>(b,n->a?n->a->id:0); put<u32>(b,n->b?n->b->id:0); put<u32>(b,n->c?n->c->id:0); put<u64>(b,n->val); put<u64>(b,n->h);
    if(n->op==N_VAR){ std::string const& s=varNames[n->k]; put<u32>(b,s.size()); b+=s; } } }
static int ask(std::vector<PCE> const& q,std::vector<Node*> const& vs,std::vector<u64>& vals){
  std::string nb; u32 cnt=0; for(auto& e:q) sendNodes(e.n,nb,cnt); for(auto v:vs) sendNodes(v,nb,cnt);
  std::string b; put<u32>(b,0); put<u8>(b,srvNew); srvNew=false; put<u32>(b,cnt); b+=nb; put<u32>(b,q.size()); for(auto& e:q){ put<u32>(b,e.n->id); put<u8>(b,e.pol); } put<u32>(b,vs.size()); for(auto v:vs) put<u32>(b,v->id);
  u32 len=b.size()-4; memcpy(&b[0],&len,4);
  signed char r; if(!wrAll(srvFd,b.data(),b.size())||!rdAll(srvFd,&r,1)) fatal("solver process gone");
  if(r==1){ vals.resize(vs.size()); if(!vs.empty()&&!rdAll(srvFd,vals.data(),8*vs.size())) fatal("solver process gone"); }
  return r; }
static void z3drop(){ Z3_solver_dec_ref(ctx,solver); Z3_del_context(ctx); ctx=nullptr; solver=nullptr; memset(sorts,0,sizeof sorts); boolMemo.clear(); }
[[noreturn]] static void serve(int fd){
  std::unordered_map<u64,Node*> byHash; std::vector<Node*> byId; std::map<std::string,u32> names; std::vector<u64> out; std::string b; u32 uid=0; u64 nq=0;
  for(;;){ u32 len; if(!rdAll(fd,&len,4)) _exit(0); b.resize(len); if(!rdAll(fd,&b[0],len)) _exit(0); u64 t0=nowNs();
    const char* p=b.data(); auto g8=[&]{ u8 v; memcpy(&v,p,1); p+=1; return v; }; auto g16=[&]{ u16 v; memcpy(&v,p,2); p+=2; return v; }; auto g32=[&]{ u32 v; memcpy(&v,p,4); p+=4; return v; }; auto g64=[&]{ u64 v; memcpy(&v,p,8); p+=8; return v; };
    bool fresh=g8(); if(fresh){ byId.clear(); if(byHash.size()>60000||nq>20000){ for(auto& e:byHash) free(e.second); byHash.clear(); z3drop(); nq=0; } }
    z3init(); ++nq; if(nq%400==0){ Z3_solver_dec_ref(ctx,solver); solver=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,solver); Z3_params pr=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,pr); Z3_params_set_uint(ctx,pr,Z3_mk_string_symbol(ctx,"timeout"),qTimeout); Z3_solver_set_params(ctx,solver,pr); Z3_params_dec_ref(ctx,pr); }
    u32 n=g32(); for(u32 i=0;i<n;++i){ u32 id=g32(); u8 op=g8(),w=g8(); u16 aux=g16(); u32 a=g32(),bb=g32(),c=g32(); u64 val=g64(),h=g64(); std::string nm_; if(op==N_VAR){ u32 l=g32(); nm_.assign(p,l); p+=l; }
      Node*& e=byHash[h]; if(!e){ e=(Node*)calloc(1,sizeof(Node)); e->op=op; e->w=w; e->aux=aux; e->id=++uid; e->a=a?byId[a]:nullptr; e->b=bb?byId[bb]:nullptr; e->c=c?byId[c]:nullptr; e->val=val; e->h=h; if(op==N_VAR){ auto it=names.find(nm_); if(it==names.end()){ it=names.insert({nm_,(u32)varNames.size()}).first; varNames.push_back(nm_); } e->k=it->second; } }
      if(byId.size()<=id) byId.resize(id+1024); byId[id]=e; }
    Z3_solver_push(ctx,solver); u32 nc=g32(); for(u32 i=0;i<nc;++i){ u32 id=g32(); u8 pol=g8(); Z3_ast x=zbool(byId[id]); if(!pol) x=Z3_mk_not(ctx,x); Z3_solver_assert(ctx,solver,x); if(!pol) Z3_dec_ref(ctx,x); }
    u64 t1=nowNs(); Z3_lbool r=Z3_solver_check(ctx,solver); Z3_solver used=solver,again=nullptr;
    if(r==Z3_L_UNDEF){ again=Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx,again); Z3_params pr=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,pr); Z3_params_set_uint(ctx,pr,Z3_mk_string_symbol(ctx,"timeout"),3*qTimeout); Z3_solver_set_params(ctx,again,pr); Z3_params_dec_ref(ctx,pr);
      Z3_ast_vector as=Z3_solver_get_assertions(ctx,solver); Z3_ast_vector_inc_ref(ctx,as); for(unsigned i=0;i<Z3_ast_vector_size(ctx,as);++i) Z3_solver_assert(ctx,again,Z3_ast_vector_get(ctx,as,i)); Z3_ast_vector_dec_ref(ctx,as); r=Z3_solver_check(ctx,again); used=again; }
    signed char res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1; u32 nv=g32(); out.assign(nv,0);
    if(res==1){ Z3_model m=Z3_solver_get_model(ctx,used); Z3_model_inc_ref(ctx,m); for(u32 i=0;i<nv;++i){ Z3_ast o=nullptr; if(Z3_model_eval(ctx,m,zx(byId[g32()]),true,&o)) Z3_get_numeral_uint64(ctx,o,(uint64_t*)&out[i]); } Z3_model_dec_ref(ctx,m); }
    if(again) Z3_solver_dec_ref(ctx,again); Z3_solver_pop(ctx,solver,1); u64 dt=nowNs()-t0; __atomic_fetch_add(&SH->solverNs,dt,__ATOMIC_RELAXED);
    if(!wrAll(fd,&res,1)) _exit(0); if(res==1&&nv) if(!wrAll(fd,out.data(),8*nv)) _exit(0); } }
// 1 sat, 0 unsat, -1 unknown.  Decides PC (its slice sharing variables with the target) and target==pol.
static int query(Node* target,bool pol,Assign* model){
  STAT(queries);
  std::vector<char> inS(varNames.size(),0); std::vector<PCE> cs; std::vector<char> used(PC.size(),0);
  for(u16 v:target->sup->v) inS[v]=1;
  bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<PC.size();++i) if(!used[i]){ bool t=false; for(u16 v:PC[i].n->sup->v) if(inS[v]){t=true;break;} if(t){ used[i]=1; ch=true; for(u16 v:PC[i].n->sup->v) inS[v]=1; } } }
  u64 key=mix(target->h,pol); { u64 s=0; for(size_t i=0;i<PC.size();++i) if(used[i]) s+=mix(PC[i].n->h,PC[i].pol?11:7); key=mix(key,s); } if(!key) key=1;
  u32 slot=(u32)(key>>20)&((1u<<20)-1);
  for(u32 i=0;i<8;++i) if(SH->cache[(slot+i)&((1u<<20)-1)]==key){ STAT(cached); STAT(unsat); return 0; }
  std::vector<PCE> q; for(size_t i=0;i<PC.size();++i) if(used[i]) q.push_back(PC[i]); q.push_back({target,pol});
  std::vector<Node*> vs; if(model) for(size_t v=0;v<varNames.size();++v) if(inS[v]) vs.push_back(varNodes[v]);
  std::vector<u64> vals; int res=ask(q,vs,vals);
  if(res==1&&model){ *model=curAssign(); for(size_t i=0;i<vs.size();++i) (*model)[varNames[vs[i]->k]]=vals[i]; }
  if(res==1) STAT(sat); else if(res==0){ STAT(unsat); for(u32 i=0;i<8;++i){ volatile u64* p=&SH->cache[(slot+i)&((1u<<20)-1)]; if(!*p){ *p=key; break; } } } else STAT(unknown);
  return res;
}
static bool g_trace=getenv("SYMX_TRACE")!=nullptr;
static FILE* trf(){ static FILE* f=nullptr; static int init=0; static pid_t me=0; if(!init||me!=getpid()){ init=1; me=getpid(); const char* d=getenv("SYMX_TRACE"); f=nullptr; if(d){ f=fopen((std::string(d)+"."+std::to_string(me)).c_str(),"w"); setbuf(f,nullptr); } } return f; }
static void pushPC(Node* n,bool pol){ if(g_trace){ FILE* f=trf(); if(f) fprintf(f,"%zu h=%llx op=%d pol=%d val=%llx ph=%llx\n",PC.size(),(unsigned long long)n->h,n->op,pol,(unsigned long long)n->val,(unsigned long long)pathHash); } PC.push_back({n,pol}); inPC[n->id]=pol; }
static void branchOn(Node* e,bool taken,const char* site,int kind){
  while(e->op==N_NOT){ e=e->a; taken=!taken; }
  if((e->val!=0)!=taken) fatal(std::string("translator mismatch at ")+(site?site:"?"));
  auto it=inPC.find(e->id); if(it!=inPC.end()) return;
  if(g_trace){ FILE* f=trf(); if(f) fprintf(f,"branch %s\n",site?site:"?"); }
  siteHit(site,kind); STAT(branches);
  u64 idx=PC.size();
  if(idx>=BOUND){
    Assign m; int r=query(e,!taken,&m);
    if(r==1) sendItem(idx+1,mix(mix(pathHash,e->h),!taken),m);
    else if(r<0) msg('U',site?site:"");
  }
  pathHash=mix(mix(pathHash,e->h),taken);
  if(idx+1==BOUND&&EXPECT&&pathHash!=EXPECT) if(FILE* f=g_trace?trf():nullptr) fprintf(f,"DIVERGE want %llx have %llx h=%llx\n",(unsigned long long)EXPECT,(unsigned long long)pathHash,(unsigned long long)e->h);
  if(idx+1==BOUND&&EXPECT&&pathHash!=EXPECT) fatal(std::string("divergence at ")+(site?site:"?"));
  pushPC(e,taken);
}
// Pins e to its current value v: one PC entry; the other feasible values become further items, each carrying the
// values already handed out at this point (EXCL), so that every value is explored exactly once.
static void concNode(Node* e,u64 v,const char* site){
  STAT(concs); Node* c=mk(N_EQ,1,0,e,cst(v,e->w)); if(isC(c)) { if(!c->val) fatal("conc mismatch"); return; }
  if(!c->val) fatal(std::string("translator mismatch (pin) at ")+(site?site:"?"));
  bool pol=true; Node* k=c; while(k->op==N_NOT){ k=k->a; pol=!pol; }
  auto it=inPC.find(k->id); if(it!=inPC.end()&&it->second==pol) return;
  if(g_trace){ FILE* f=trf(); if(f) fprintf(f,"conc %s v=%llx\n",site?site:"?",(unsigned long long)v); }
  siteHit(site,2); STAT(branches); u64 idx=PC.size(); u64 ph=mix(mix(pathHash,e->h),777);
  if(idx+1==BOUND&&EXPECT&&ph!=EXPECT) fatal(std::string("divergence at ")+(site?site:"?"));
  if(idx+1>=BOUND){
    Node* t=notN(c); std::vector<u64> ex; if(idx+1==BOUND) ex=EXCL;
    for(u64 x:ex) t=mk(B_AND,1,0,t,notN(mk(N_EQ,1,0,e,cst(x,e->w))));
    if(!isC(t)||t->val){ Assign m; int r=query(t,true,&m); ex.push_back(v); if(r==1) sendItem(idx+1,ph,m,&ex); else if(r<0) msg('U',site?site:""); }
  }
  pathHash=mix(ph,v); pushPC(k,pol);
}

// ---------------------------------------------------------------- shadow memory
struct Page { Node* n[4096]; u8 i[4096]; u32 live; };
static std::unordered_map<u64,Page*> pages; static u8 pfilter[1<<16];
static inline bool pf(u64 a){ return pfilter[(a>>12)&0xffff]; }
static Page* page(u64 a,bool create){ if(!create&&!pf(a)) return nullptr; auto it=pages.find(a>>12); if(it!=pages.end()) return it->second; if(!create) return nullptr; Page* p=(Page*)mmap(0,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) fatal("oom"); pages[a>>12]=p; pfilter[(a>>12)&0xffff]=1; return p; }
static inline Node* sget(u64 a,u8* idx){ Page* p=page(a,false); if(!p) return nullptr; *idx=p->i[a&4095]; return p->n[a&4095]; }
static void sset(u64 a,Node* n,u8 idx){ Page* p=page(a,n!=nullptr); if(!p) return; p->n[a&4095]=n; p->i[a&4095]=idx; }
static void sclear(u64 a,u64 n){ if(!active) return; while(n){ u64 k=std::min<u64>(n,4096-(a&4095)); Page* p=page(a,false); if(p) memset(&p->n[a&4095],0,k*sizeof(Node*)); a+=k; n-=k; } }
static Node* byteNode(Node* n,unsigned idx){ return mk(N_EXTRACT,8,idx*8,n); }
// assemble the expression of size bytes at a; null if all concrete
static Node* sload(u64 a,unsigned size,const u8* conc){
  Node* ns[8]; u8 is[8]; bool any=false,same=true;
  for(unsigned i=0;i<size;++i){ ns[i]=sget(a+i,&is[i]); if(ns[i]) any=true; }
  if(!any) return nullptr;
  for(unsigned i=0;i<size;++i) if(ns[i]!=ns[0]||is[i]!=is[0]+i) same=false;
  if(same) return mk(N_EXTRACT,size*8,is[0]*8,ns[0]);
  Node* r=nullptr;
  for(int i=(int)size-1;i>=0;--i){ Node* b=ns[i]?byteNode(ns[i],is[i]):cst(conc[i],8); r=r?mk(N_CONCAT,r->w+8,0,r,b):b; }
  return r;
}
struct Ext { u64 lo,n; }; static std::map<u64,u64> heapExt,stackExt,globExt; // lo -> size
static bool inMap(std::map<u64,u64>& m,u64 a,Ext* e){ auto it=m.upper_bound(a); if(it==m.begin()) return false; --it; if(a<it->first+it->second||(a==it->first)){ e->lo=it->first; e->n=it->second; return true; } return false; }
static bool findObj(u64 a,Ext* e){ return inMap(heapExt,a,e)||inMap(stackExt,a,e)||inMap(globExt,a,e); }
static std::unordered_set<u64> regFns;

EXP Node* __symx_argv[64]; Node* __symx_argv[64]; EXP u64 __symx_argc[64]; u64 __symx_argc[64]; EXP u64 __symx_argp; u64 __symx_argp;
EXP Node* __symx_retv[16]; Node* __symx_retv[16]; EXP void* __symx_rettag; void* __symx_rettag; EXP void* __symx_calltag; void* __symx_calltag;
static Node* zeros[64]; static Node* argcopy[64]; static Node* retcopy[16]; static Node* apiRet[16];

EXP void __symx_register(void** f,u64 nf,void** g,u64 ng){ for(u64 i=0;i<nf;++i) regFns.insert((u64)f[i]); for(u64 i=0;i<ng;++i) globExt[(u64)g[2*i]]=(u64)g[2*i+1]; }
EXP Node** __symx_entry(void* f,u32 n,const char* site){
  if(__symx_calltag!=f){ return zeros; }
  __symx_calltag=nullptr; bool any=false; for(u32 i=0;i<n;++i){ argcopy[i]=__symx_argv[i]; if(argcopy[i]) any=true; } if(any) siteHit(site,4); return argcopy; }
EXP Node** __symx_getret(void* f){ __symx_calltag=nullptr; if(!f){ return apiRet; } if(__symx_rettag!=f){ __symx_rettag=nullptr; return zeros; } __symx_rettag=nullptr; memcpy(retcopy,__symx_retv,sizeof retcopy); return retcopy; }

// natives that never look at the payload behind pointer arguments
static bool opaqueNative(const char* n){
  static const char* pre[]={"_ZSt18_Rb_tree_increment","_ZSt18_Rb_tree_decrement","_ZSt29_Rb_tree_insert_and_rebalance","_ZSt28_Rb_tree_rebalance_for_erase","_ZNSt8__detail15_List_node_base",
    "_ZNSt6locale","pthread_","_ZSt17__throw","_ZSt20__throw","_ZSt19__throw","_ZSt24__throw","_ZSt2","_ZdlPv","_ZdaPv","free","apr_pool","apr_thread","__errno",
    "_ZNSt9basic_ios","_ZNSt8ios_base","_ZNSt15basic_streambuf","_ZNSt12_","uprv_free","exit","abort","_ZN6icu_7411ReplaceableD2Ev","_ZN6icu_747UObjectD2Ev","_ZNSo3put","_ZNSi4peek","_ZNSi3get","_ZNSo5flush","_ZNSt9exceptionD","fflush","fclose","fopen","puts","__cxa","dlclose",nullptr};
  for(int i=0;pre[i];++i) if(!strncmp(n,pre[i],strlen(pre[i]))) return true; return false; }
// a constructor finds no pointers in its object, the formatters none in their destination: what earlier owners of the memory left there is not followed
static bool freshFirst(const char* n){ if(!strncmp(n,"sprintf",8)||!strncmp(n,"snprintf",9)) return true; return !strncmp(n,"_ZN",3)&&(strstr(n,"C1E")||strstr(n,"C2E")); }
static bool flatNative(const char* n){ return !strcmp(n,"strtod")||!strcmp(n,"strtof"); } // read the bytes they are given only
static void concMem(u64 a,u64 n,const char* site){ for(u64 i=0;i<n;){ if(!pf(a+i)){ u64 k=4096-((a+i)&4095); i+=k; continue; } u8 ix; Node* s=sget(a+i,&ix); if(s){ Node* b=byteNode(s,ix); u8 c=*(volatile u8*)(a+i); if(b->val!=c){ STAT(nativeOverwrites); } else if(!isC(b)) { if(ix==0&&s->w<=64&&i+s->w/8<=n){ concNode(s,s->val,site); } else concNode(b,c,site); } sset(a+i,nullptr,0); } ++i; } }
static void concReach(u64 p,int depth,const char* site){
  Ext e; if(!findObj(p,&e)) return; if(e.n>(1u<<20)) { concMem(p,4096,site); return; }
  concMem(e.lo,e.n,site);
  if(depth>0&&e.n<=4096) for(u64 a=(e.lo+7)&~7ull;a+8<=e.lo+e.n;a+=8){ u64 q=*(u64*)a; Ext e2; if(q>4096&&findObj(q,&e2)&&e2.lo!=e.lo) concReach(q,depth-1,site); }
}
EXP void __symx_call(void* f,u32 n,const char* name,const char* site){
  if(!active) return;
  if(regFns.count((u64)f)){ __symx_calltag=f; return; }
  __symx_calltag=nullptr;
  for(u32 i=0;i<n;++i) if(__symx_argv[i]){ siteHit(name,8); concNode(__symx_argv[i],__symx_argv[i]->val,site); }
  if(opaqueNative(name)) return;
  u64 pm=__symx_argp; u64 pv[64]; memcpy(pv,__symx_argc,sizeof pv);
  if(!strncmp(name,"_ZNSo5write",11)&&n==3){ u64 before=SH->concs; concMem(pv[1],pv[2],site); if(SH->concs!=before) siteHit(name,8); return; }
  for(u32 i=0;i<n;++i) if((pm>>i)&1&&pv[i]>4096){ u64 before=SH->concs; concReach(pv[i],(i==0&&freshFirst(name))||flatNative(name)?0:1,site); if(SH->concs!=before) siteHit(name,8); }
}

EXP Node* __symx_bin(u32 op,u32 w,Node* ea,u64 va,Node* eb,u64 vb){
  if(!ea&&!eb) return nullptr;
  Node*a=nodeOr(ea,va,w),*b=nodeOr(eb,vb,w);
  switch(op){
  case B_UMIN: return ret(mk(N_ITE,w,0,mk(N_ULT,1,0,a,b),a,b)); case B_UMAX: return ret(mk(N_ITE,w,0,mk(N_ULT,1,0,a,b),b,a));
  case B_SMIN: return ret(mk(N_ITE,w,0,mk(N_SLT,1,0,a,b),a,b)); case B_SMAX: return ret(mk(N_ITE,w,0,mk(N_SLT,1,0,a,b),b,a));
  case B_UADDO: case B_USUBO: case B_SADDO: case B_SSUBO: case B_UMULO: case B_SMULO: return ret(mk(op,1,0,a,b));
  case B_UADDSAT: return ret(mk(N_ITE,w,0,mk(B_UADDO,1,0,a,b),cst(msk(w),w),mk(B_ADD,w,0,a,b)));
  case B_USUBSAT: return ret(mk(N_ITE,w,0,mk(N_ULT,1,0,a,b),cst(0,w),mk(B_SUB,w,0,a,b)));
  case B_SADDSAT: case B_SSUBSAT: { bool add=op==B_SADDSAT; Node* o=mk(add?B_SADDO:B_SSUBO,1,0,a,b); Node* neg=mk(N_SLT,1,0,a,cst(0,w)); Node* lim=mk(N_ITE,w,0,neg,cst(1ull<<(w-1),w),cst(msk(w)>>1,w)); return ret(mk(N_ITE,w,0,o,lim,mk(add?B_ADD:B_SUB,w,0,a,b))); }
  case B_UDIV: case B_SDIV: case B_UREM: case B_SREM:
    if(eb){ Node* z=mk(N_EQ,1,0,b,cst(0,w)); if(!isC(z)) branchOn(z,b->val==0,"division",1); } break;
  }
  return ret(mk(op,w,0,a,b));
}
EXP Node* __symx_cmp(u32 p,u32 w,Node* ea,u64 va,Node* eb,u64 vb){
  if(!ea&&!eb) return nullptr; Node*a=nodeOr(ea,va,w),*b=nodeOr(eb,vb,w);
  switch(p){ case 32: return ret(mk(N_EQ,1,0,a,b)); case 33: return ret(notN(mk(N_EQ,1,0,a,b)));
  case 34: return ret(mk(N_ULT,1,0,b,a)); case 35: return ret(mk(N_ULE,1,0,b,a)); case 36: return ret(mk(N_ULT,1,0,a,b)); case 37: return ret(mk(N_ULE,1,0,a,b));
  case 38: return ret(mk(N_SLT,1,0,b,a)); case 39: return ret(mk(N_SLE,1,0,b,a)); case 40: return ret(mk(N_SLT,1,0,a,b)); case 41: return ret(mk(N_SLE,1,0,a,b)); }
  fatal("cmp predicate"); }
EXP Node* __symx_fcmp(u32 p,u32 w,Node* ea,u64 va,Node* eb,u64 vb){
  if(!ea&&!eb) return nullptr; Node*a=nodeOr(ea,va,w),*b=nodeOr(eb,vb,w);
  Node *eq=mk(N_FOEQ,1,0,a,b),*lt=mk(N_FOLT,1,0,a,b),*gt=mk(N_FOLT,1,0,b,a),*le=mk(N_FOLE,1,0,a,b),*ge=mk(N_FOLE,1,0,b,a),*un=mk(N_FUNO,1,0,a,b);
  auto OR=[&](Node*x,Node*y){return mk(B_OR,1,0,x,y);};
  switch(p){ case 0: return nullptr; case 1: return ret(eq); case 2: return ret(gt); case 3: return ret(ge); case 4: return ret(lt); case 5: return ret(le); case 6: return ret(OR(lt,gt)); case 7: return ret(notN(un)); case 8: return ret(un);
  case 9: return ret(OR(eq,un)); case 10: return ret(notN(le)); case 11: return ret(notN(lt)); case 12: return ret(notN(ge)); case 13: return ret(notN(gt)); case 14: return ret(notN(eq)); case 15: return nullptr; }
  fatal("fcmp"); }
EXP Node* __symx_cast(u32 op,u32 fw,u32 tw,Node* e,u64 v){
  if(!e) return nullptr; Node* a=nodeOr(e,v,fw);
  switch(op){ case C_TRUNC: return ret(mk(N_EXTRACT,tw,0,a)); case C_ZEXT: return ret(mk(N_ZEXT,tw,0,a)); case C_SEXT: return ret(mk(N_SEXT,tw,0,a));
  case C_FPTRUNC: return ret(mk(N_FPTRUNC,tw,0,a)); case C_FPEXT: return ret(mk(N_FPEXT,tw,0,a)); 
  case C_FPTOSI: return ret(mk(N_FPTOSI,tw,0,a)); case C_FPTOUI: return ret(mk(N_FPTOUI,tw,0,a)); case C_SITOFP: return ret(mk(N_SITOFP,tw,0,a)); case C_UITOFP: return ret(mk(N_UITOFP,tw,0,a));
  case C_BSWAP: { Node* r=nullptr; for(unsigned i=0;i<fw/8;++i){ Node* b=byteNode(a,i); r=r?mk(N_CONCAT,r->w+8,0,r,b):b; } return ret(r); }
  case C_CTPOP: { Node* r=cst(0,fw); for(unsigned i=0;i<fw;++i) r=mk(B_ADD,fw,0,r,mk(N_ZEXT,fw,0,mk(N_EXTRACT,1,i,a))); return ret(r); }
  case C_CTLZ: { Node* r=cst(fw,fw); for(unsigned i=0;i<fw;++i) r=mk(N_ITE,fw,0,mk(N_EXTRACT,1,i,a),cst(fw-1-i,fw),r); return ret(r); }
  case C_CTTZ: { Node* r=cst(fw,fw); for(int i=fw-1;i>=0;--i) r=mk(N_ITE,fw,0,mk(N_EXTRACT,1,i,a),cst(i,fw),r); return ret(r); }
  case C_ABS: return ret(mk(N_ITE,fw,0,mk(N_SLT,1,0,a,cst(0,fw)),mk(B_SUB,fw,0,cst(0,fw),a),a));
  case C_FABS: return ret(mk(B_AND,fw,0,a,cst(msk(fw)>>1,fw))); case C_FNEG: return ret(mk(B_XOR,fw,0,a,cst(1ull<<(fw-1),fw))); }
  fatal("cast"); }
EXP Node* __symx_fsh(u32 l,u32 w,Node* ea,u64 va,Node* eb,u64 vb,Node* ec,u64 vc){
  if(!ea&&!eb&&!ec) return nullptr; Node*a=nodeOr(ea,va,w),*b=nodeOr(eb,vb,w),*c=nodeOr(ec,vc,w);
  Node* s=mk(B_UREM,w,0,c,cst(w,w)); Node* z=mk(N_EQ,1,0,s,cst(0,w)); Node* i=mk(B_SUB,w,0,cst(w,w),s);
  Node* r= l? mk(N_ITE,w,0,z,a,mk(B_OR,w,0,mk(B_SHL,w,0,a,s),mk(B_LSHR,w,0,b,i))) : mk(N_ITE,w,0,z,b,mk(B_OR,w,0,mk(B_LSHR,w,0,b,s),mk(B_SHL,w,0,a,i)));
  return ret(r); }
EXP Node* __symx_select(u32 w,Node* ec,u32 c,Node* ea,u64 va,Node* eb,u64 vb){
  if(!ec) return c?ea:eb; Node* k=nodeOr(ec,c,1); 
  // the operand that is not selected may be poison/unrelated: its shadow is still the right expression
  Node*a=nodeOr(ea,va,w),*b=nodeOr(eb,vb,w); return ret(mk(N_ITE,w,0,k,a,b)); }
EXP void __symx_selbr(Node* ec,u32 c,const char* site){ if(ec) branchOn(ec,c,site,1); }
EXP Node* __symx_gepoff(Node* off,Node* ei,u32 iw,u64 scale){ if(!ei) return off; Node* x= iw<64? mk(N_SEXT,64,0,ei): iw>64?nullptr:ei; x=mk(B_MUL,64,0,x,cst(scale,64)); return ret(off?mk(B_ADD,64,0,off,x):x); }
EXP Node* __symx_gepfin(Node* eb,Node* off,u64 v){ if(!eb&&!off) return nullptr; Node* s= eb&&off? mk(B_ADD,64,0,eb,off): eb?eb:off; return ret(mk(B_ADD,64,0,s,cst(v-s->val,64))); }

static bool iteMode(u64 p,u32 size,int kind,Ext* e){ if(kind!=0) return false; if(!findObj(p,e)) return false; return e->n<=1100&&p+size<=e->lo+e->n; }
// before an access through a symbolic address: the address must stay inside the object it points to
EXP void __symx_addr(u64 p,Node* e,u32 size,u32 kind,const char* site){
  if(!e) return; if(e->val!=p) fatal(std::string("address mismatch ")+site);
  Ext x;
  if(findObj(p,&x)){
    STAT(memChecks);
    Node* off=mk(B_SUB,64,0,e,cst(x.lo,64)); Node* ok= x.n>=size? mk(N_ULT,1,0,off,cst(x.n-size+1,64)) : cst(0,1);
    if(!isC(ok)){
      if(ok->val){ auto it=inPC.find(ok->id); if(it==inPC.end()){ int r=0; Assign m; if(PC.size()>=BOUND){ STAT(asserts); r=query(ok,false,&m); } if(r==1){ msg('M',std::string(site)+"\n"+packAssign(m)); } else if(r<0) msg('U',site); pathHash=mix(mix(pathHash,ok->h),1); pushPC(ok,true);
            if(PC.size()==BOUND&&EXPECT&&pathHash!=EXPECT) fatal("divergence at memory check"); } }
      else { msg('M',std::string(site)+"\n"+packAssign(curAssign())); }
    } else if(!ok->val) msg('M',std::string(site)+"\n"+packAssign(curAssign()));
    if(iteMode(p,size,kind,&x)) return;
  }
  concNode(e,p,site);
}
EXP Node* __symx_load(u64 p,Node* eptr,u32 size,u32 w,u64 v,u32 isptr){
  if(!active) return nullptr;
  if(eptr){
    Ext x;
    // still symbolic after __symx_addr: read as an ITE chain over the small object
    Node* pin=mk(N_EQ,1,0,eptr,cst(p,64)); bool pinned=isC(pin)?true:inPC.count(pin->id)&&inPC[pin->id];
    if(!pinned&&iteMode(p,size,isptr?1:0,&x)){
      Node* r=nullptr; Node* off=mk(B_SUB,64,0,eptr,cst(x.lo,64));
      // stride: candidates congruent to the current offset modulo the access size
      u64 st=size; u64 first=(p-x.lo)%st; 
      // addresses not congruent modulo the access size cannot occur for aligned accesses; check with the solver
      Node* al=mk(N_EQ,1,0,mk(B_UREM,64,0,off,cst(st,64)),cst(first,64)); if(!isC(al)&&st>1){ auto it=inPC.find(al->id); if(it==inPC.end()){ branchOn(al,true,"unaligned",1);} }
      for(u64 o=first;o+size<=x.n;o+=st){ Node* s=sload(x.lo+o,size,(const u8*)(x.lo+o)); if(!s){ u64 c=0; memcpy(&c,(void*)(x.lo+o),size); s=cst(c,size*8);} 
        r= r? mk(N_ITE,size*8,0,mk(N_EQ,1,0,off,cst(o,64)),s,r):s; }
      if(w<size*8) r=mk(N_EXTRACT,w,0,r);
      if(r->val!=(v&msk(w))) fatal("ite load mismatch");
      return ret(r);
    }
  }
  if(!pf(p)&&!pf(p+size-1)) return nullptr;
  u8 buf[8]; memcpy(buf,&v,8); if(w<size*8){ memcpy(buf,(void*)p,size); }
  Node* s=sload(p,size,buf); if(!s) return nullptr;
  if(w<size*8) s=mk(N_EXTRACT,w,0,s);
  if(isC(s)) return nullptr;
  if(s->val!=(v&msk(w))){ STAT(nativeOverwrites); siteHit("native-overwrite",16); sclear(p,size); return nullptr; }
  return s;
}
EXP void __symx_store(u64 p,u32 size,Node* e,u64 v){
  if(!e){ sclear(p,size); return; }
  if(e->val!=(v&msk(e->w))) fatal("store mismatch");
  if(e->w<size*8) e=mk(N_ZEXT,size*8,0,e);
  for(u32 i=0;i<size;++i) sset(p+i,e,i);
}
EXP void __symx_clear(u64 p,u64 n){ if(active) sclear(p,n); }
EXP void __symx_memconc(u64 p,u64 n,const char* site){ if(active) concMem(p,n,site); }
EXP void __symx_conc(Node* e,u64 v,const char* site){ if(e) concNode(e,v,site); }
EXP void __symx_memcpy(u64 d,u64 s,u64 n){
  if(!active||d==s) return;
  if(d<s||d>=s+n){ for(u64 i=0;i<n;){ if(!pf(s+i)&&!pf(d+i)){ u64 k=std::min<u64>(4096-((s+i)&4095),4096-((d+i)&4095)); i+=k; continue; } u8 ix=0; Node* x=sget(s+i,&ix); sset(d+i,x,ix); ++i; } }
  else for(u64 i=n;i-->0;){ u8 ix=0; Node* x=sget(s+i,&ix); sset(d+i,x,ix); }
}
EXP void __symx_memset(u64 d,Node* e,u64 n){ if(!active) return; if(!e){ sclear(d,n); return; } Node* b=mk(N_EXTRACT,8,0,e); for(u64 i=0;i<n;++i) sset(d+i,isC(b)?nullptr:b,0); }
EXP void __symx_branch(Node* e,u32 t,const char* site){ if(e) branchOn(e,t!=0,site,1); }
EXP void __symx_switch(Node* e,u32 w,u64 v,u32 n,const u64* cs,const char* site){
  if(!e) return; Node* a=nodeOr(e,v,w);
  for(u32 i=0;i<n;++i){ Node* c=mk(N_EQ,1,0,a,cst(cs[i],w)); bool t=(cs[i]&msk(w))==(v&msk(w)); if(!isC(c)) branchOn(c,t,site,1); if(t) break; }
}
EXP void __symx_alloca(u64 p,u64 n,u32 agg){ if(!active) return; sclear(p,n); if(agg){ auto it=stackExt.lower_bound(p); if(it!=stackExt.begin()){ auto q=it; --q; if(q->first+q->second>p) stackExt.erase(q); } while(it!=stackExt.end()&&it->first<p+n) it=stackExt.erase(it); stackExt[p]=n; } }
EXP void __symx_nativemem(u64,u64,u64){}
static void regHeap(u64 p,u64 n){ if(!p) return; sclear(p,n); auto it=heapExt.lower_bound(p); if(it!=heapExt.begin()){ auto q=it; --q; if(q->first+q->second>p) heapExt.erase(q); } while(it!=heapExt.end()&&it->first<p+n) it=heapExt.erase(it); heapExt[p]=n; }
static const u64 MAXALLOC=1ull<<31;
// The program's heap is an arena of its own at a fixed address, so that its addresses do not depend on what the
// executor itself (or the solver) allocates: every re-execution of a path sees the same addresses.
static const u64 AR_LO=0x200000000000ull, AR_N=1ull<<32; static u64 arTop=0,arEnd=AR_LO+AR_N; static const u32 NCLS=4096; static u64 arFree[NCLS];
static inline bool inArena(const void* p){ return (u64)p-AR_LO<AR_N; }
static void* arAlloc(size_t n){
  if(!arTop){ void* p=mmap((void*)AR_LO,AR_N,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)AR_LO) abort(); arTop=AR_LO+4096; }
  u64 c=(n+15)/16; if(!c) c=1; if(c<NCLS&&arFree[c]){ u64 p=arFree[c]; arFree[c]=*(u64*)p; ((u64*)p)[-1]=c; return (void*)p; }
  u64 p=arTop+16; if(p+c*16+16>arEnd) return nullptr; arTop=p+c*16; ((u64*)p)[-2]=0; ((u64*)p)[-1]=c; return (void*)p; }
static void arDel(void* q){ u64 p=(u64)q; u64 c=((u64*)p)[-1]; if(!c||c>(AR_N>>4)) return; ((u64*)p)[-1]=0; if(c<NCLS){ *(u64*)p=arFree[c]; arFree[c]=p; } }
extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*,size_t);
static void arForget(void* p){ auto it=heapExt.find((u64)p); if(it!=heapExt.end()){ sclear(it->first,it->second); heapExt.erase(it); } arDel(p); }
extern "C" __attribute__((visibility("default"))) void free(void* p){ if(inArena(p)) arForget(p); else __libc_free(p); }
extern "C" __attribute__((visibility("default"))) void* realloc(void* p,size_t n){ if(!inArena(p)) return __libc_realloc(p,n); void* q=malloc(n?n:1); u64 o=((u64*)p)[-1]*16; memcpy(q,p,std::min<u64>(n,o)); arForget(p); return q; }
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
VIS void* operator new[](size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
VIS void operator delete(void* p) noexcept { free(p); }
VIS void operator delete[](void* p) noexcept { free(p); }
VIS void operator delete(void* p,size_t) noexcept { free(p); }
VIS void operator delete[](void* p,size_t) noexcept { free(p); }
EXP void* __symx_malloc(size_t n){ if(n>MAXALLOC) return nullptr; void* p=arAlloc(n); regHeap((u64)p,n); return p; }
EXP void* __symx_new(size_t n){ void* p=__symx_malloc(n); if(!p) throw std::bad_alloc(); return p; }
EXP void* __symx_calloc(size_t a,size_t b){ void* p=__symx_malloc(a*b); if(p) memset(p,0,a*b); return p; }
EXP void __symx_free(void* p){ if(!p) return; if(inArena(p)) arForget(p); else { auto it=heapExt.find((u64)p); if(it!=heapExt.end()){ sclear(it->first,it->second); heapExt.erase(it); } free(p); } }
EXP void __symx_free2(void* p,size_t){ __symx_free(p); }
EXP void* __symx_realloc(void* p,size_t n){ void* q=__symx_malloc(n); if(p&&q){ u64 o=n; auto it=heapExt.find((u64)p); if(it!=heapExt.end()) o=std::min<u64>(n,it->second); else if(inArena(p)) o=std::min<u64>(n,((u64*)p)[-1]*16); memcpy(q,p,o); __symx_memcpy((u64)q,(u64)p,o); __symx_free(p);} return q; }

// ---------------------------------------------------------------- harness API
EXP u64 symx_input(const char* name,unsigned w){
  apiRet[0]=nullptr; if(!active) fatal("input outside a scenario body");
  for(auto& s:varNames) if(s==name) fatal(std::string("duplicate input ")+name);
  if(varNames.size()>=60000) fatal("too many inputs");
  u64 v=0; auto it=ASG.find(name); if(it!=ASG.end()) v=it->second&msk(w);
  u64 hh=0; for(const char* c=name;*c;++c) hh=mix(hh,(u8)*c);
  u32 k=varNames.size(); varNames.push_back(name);
  Node* n=raw(N_VAR,w,0,0,0,0,k,v,hh); n->sup=internSup({(u16)k}); varNodes.push_back(n); 
  Node* r= w<64? mk(N_ZEXT,64,0,n):n; apiRet[0]=r; return v; }
[[noreturn]] static void finish(const char* how);
static Node* condNode(Node* e,int c){ if(!e||isC(e)) return nullptr; Node* z=mk(N_EQ,1,0,e,cst(0,e->w)); Node* t=notN(z); if((t->val!=0)!=(c!=0)) fatal("cond mismatch"); return isC(t)?nullptr:t; }
EXP void symx_assume(int c){
  Node* t=condNode(__symx_argv[0],c); apiRet[0]=nullptr;
  if(!t){ if(!c){ STAT(assumesKilled); finish("assume"); } return; }
  bool pol=true; while(t->op==N_NOT){ t=t->a; pol=!pol; }
  auto it=inPC.find(t->id); if(it!=inPC.end()){ if(it->second!=pol){ finish("assume"); } return; }
  if(!c){ Assign m; u64 idx=PC.size(); int r=query(t,pol,&m); if(r==1) sendItem(std::max<u64>(BOUND,idx+1),idx+1>=BOUND?mix(mix(pathHash,t->h),pol):EXPECT,m); else if(r<0) msg('U',"assume"); STAT(assumesKilled); finish("assume"); }
  pathHash=mix(mix(pathHash,t->h),pol); pushPC(t,pol);
  if(PC.size()==BOUND&&EXPECT&&pathHash!=EXPECT) fatal("divergence at assume");
}
static std::set<std::string> reachedSet;
EXP void symx_assert(int c,const char* label){
  Node* t=condNode(__symx_argv[0],c); apiRet[0]=nullptr; STAT(asserts);
  if(!c){ sendViol(label,curAssign(),nullptr); return; }
  if(!t) return;
  bool pol=true; while(t->op==N_NOT){ t=t->a; pol=!pol; }
  auto it=inPC.find(t->id); if(it!=inPC.end()) return;
  Assign m; int r=query(t,!pol,&m); if(r==1) sendViol(label,m,nullptr); else if(r<0) msg('U',label);
}
EXP void symx_known(const char* id,int violated,const char* label){
  Node* t=condNode(__symx_argv[1],violated); apiRet[0]=nullptr; (void)label;
  if(violated) msg('K',std::string(id)+"\n"+packAssign(curAssign()));
  else if(t){ Assign m; int r=query(t,true,&m); if(r==1) msg('K',std::string(id)+"\n"+packAssign(m)); }
}
EXP void symx_observe(u64 v){ apiRet[0]=nullptr; obsHash=(obsHash^v)*1099511628211ull; obsHash^=obsHash>>29; ++nobs; }
EXP int symx_symbolic(u64 v){ apiRet[0]=nullptr; return __symx_argv[0]!=nullptr; }
EXP u64 symx_pin(u64 v){ Node* e=__symx_argv[0]; apiRet[0]=nullptr; if(e) concNode(e,v,"pin"); return v; }
EXP void symx_reached(const char* l){ apiRet[0]=nullptr; if(reachedSet.insert(l).second) msg('R',l); }
EXP int symx_thorough(){ apiRet[0]=nullptr; return thoroughFlag; }
EXP int symx_native(){ apiRet[0]=nullptr; return 0; }

static bool finished=false;
[[noreturn]] static void finish(const char* how){
  char b[128]; snprintf(b,128,"%s %llx %llu %llu %u",how,(unsigned long long)obsHash,(unsigned long long)nobs,(unsigned long long)PC.size(),nextId);
  msg('D',std::string(b)+"\n"+packAssign(curAssign())); finished=true; _exit(0); }

// ---------------------------------------------------------------- coordinator
struct Item { u64 bound,expect; Assign a; std::vector<u64> ex; };
struct Srv { pid_t pid=-1; int fd=-1; bool busy=false; };
struct Worker { pid_t pid; int fd; int slot; std::string buf; Item it; double t0; bool done; std::string how; };
static double now(){ return nowNs()*1e-9; }
static std::string esc(const std::string& s){ std::string o; for(char ch:s){ unsigned char c=ch; if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
typedef void (*VoidFn)();
EXP void symx_set_active(int on){ active=on; }
// runs all paths of body; writes a JSON report
EXP int symx_explore(const char* scen,VoidFn body,const char* outFile,double budget,int jobs,double pathTimeout,u64 maxPaths,int thorough){
  T0=now(); thoroughFlag=thorough;
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  std::deque<Item> q; q.push_back({0,0,{},{}});
  std::vector<Worker> ws; u64 paths=0,killed=0,crashes=0,timeouts=0,maxpc=0,steps=0,totobs=0; u64 nodeMax=0; 
  std::map<std::string,std::pair<std::string,std::string>> viol; std::map<std::string,std::string> known; std::map<std::string,u64> violN; std::vector<std::string> errs; std::map<std::string,u64> unk; std::map<std::string,std::string> memv; std::set<std::string> reached;
  std::vector<std::pair<std::string,std::string>> samples; u64 seenDone=0; u64 rng=88172645463325252ull; if(getenv("VERIF_SEED")) rng^=strtoull(getenv("VERIF_SEED"),0,10)*0x9e3779b97f4a7c15ull;
  std::vector<std::pair<std::string,std::string>> crashv; bool stopped=false; std::string stopWhy; u64 items=1;
  fflush(stdout); fflush(stderr); signal(SIGPIPE,SIG_IGN);
  std::vector<Srv> srv(jobs);
  auto stopSrv=[&](Srv& v){ if(v.pid>0){ close(v.fd); kill(v.pid,SIGKILL); waitpid(v.pid,0,0); v.pid=-1; } };
  auto startSrv=[&](Srv& v){ int sv[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,sv)){ perror("socketpair"); exit(2); } pid_t c=fork();
    if(c==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); close(sv[0]); for(auto& o:srv) if(o.pid>0) close(o.fd); for(auto& w:ws) close(w.fd); struct rlimit rl={6ull<<30,6ull<<30}; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl); outFd=-1; serve(sv[1]); }
    close(sv[1]); v.pid=c; v.fd=sv[0]; };
  while(!q.empty()||!ws.empty()){
    if(!stopped&&now()-T0>budget){ stopped=true; stopWhy="time budget"; }
    if(!stopped&&paths+killed>=maxPaths){ stopped=true; stopWhy="path budget"; }
    if(!stopped&&viol.size()+crashv.size()>=24){ stopped=true; stopWhy="violations"; }
    if(!stopped&&errs.size()>=5){ stopped=true; stopWhy="errors"; }
    while(!stopped&&!q.empty()&&(int)ws.size()<jobs){
      rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; if(q.size()>40&&rng%4==0) std::swap(q[(rng>>8)%q.size()],q.back()); Item it=q.back(); q.pop_back(); int slot=0; while(srv[slot].busy) ++slot; if(srv[slot].pid<0) startSrv(srv[slot]); srv[slot].busy=true; int p[2]; if(pipe(p)) { perror("pipe"); return 2; }
      pid_t pid=fork();
      if(pid==0){ close(p[0]); outFd=p[1]; for(auto& w:ws) close(w.fd); srvFd=srv[slot].fd; for(auto& o:srv) if(o.pid>0&&o.fd!=srvFd) close(o.fd); signal(SIGPIPE,SIG_DFL);
        if(!getenv("SYMX_DEBUG")){ int d=open("/dev/null",O_WRONLY); dup2(d,1); dup2(d,2); }
        struct rlimit rl={8ull<<30,8ull<<30}; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
        ASG=it.a; BOUND=it.bound; EXPECT=it.expect; EXCL=it.ex; active=true; body(); finish("ok"); }
      close(p[1]); fcntl(p[0],F_SETFD,FD_CLOEXEC); ws.push_back({pid,p[0],slot,"",it,now(),false,""});
    }
    if(stopped&&ws.empty()) break;
    std::vector<pollfd> pf_; for(auto& w:ws) pf_.push_back({w.fd,POLLIN,0});
    poll(pf_.data(),pf_.size(),200);
    for(size_t i=0;i<ws.size();){ Worker& w=ws[i]; bool eof=false; 
      if(pf_.size()>i&&(pf_[i].revents&(POLLIN|POLLHUP))){ char b[65536]; ssize_t k=read(w.fd,b,sizeof b); if(k>0) w.buf.append(b,k); else if(k==0) eof=true; }
      while(w.buf.size()>=5){ u32 n; memcpy(&n,w.buf.data()+1,4); if(w.buf.size()<5+n) break; char t=w.buf[0]; std::string s=w.buf.substr(5,n); w.buf.erase(0,5+n);
        size_t nl=s.find('\n');
        switch(t){
        case 'I': { char* e; u64 b=strtoull(s.c_str(),&e,10); u64 x=strtoull(e,&e,10); u64 ne=strtoull(e,&e,10); std::vector<u64> ex; for(u64 z=0;z<ne;++z) ex.push_back(strtoull(e,&e,10)); while(*e==' ') ++e; q.push_back({b,x,parseAssign(e),ex}); ++items; break; }
        case 'V': { std::string l=s.substr(0,nl); size_t n2=s.find('\n',nl+1); violN[l]++; if(!viol.count(l)) viol[l]={s.substr(nl+1,n2-nl-1),s.substr(n2+1)}; break; }
        case 'M': { std::string l=s.substr(0,nl); if(!memv.count(l)) memv[l]=s.substr(nl+1); break; }
        case 'K': { std::string l=s.substr(0,nl); if(!known.count(l)) known[l]=s.substr(nl+1); break; }
        case 'E': errs.push_back(s+" under "+packAssign(w.it.a)); w.done=true; w.how="error"; break; case 'U': unk[s]++; break; case 'R': reached.insert(s); break;
        case 'D': { w.done=true; w.how=s.substr(0,s.find(' ')); char how[32]; unsigned long long oh,no,pc; unsigned nn; sscanf(s.c_str(),"%31s %llx %llu %llu %u",how,&oh,&no,&pc,&nn); if(pc>maxpc) maxpc=pc; steps+=pc; totobs+=no; if(nn>nodeMax) nodeMax=nn;
            if(w.how=="ok"){ ++seenDone; char ob[32]; snprintf(ob,32,"%llx",oh); std::pair<std::string,std::string> smp(s.substr(nl+1),ob);
              if(samples.size()<400) samples.push_back(smp); else { rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; u64 k=rng%seenDone; if(k<400) samples[k]=smp; } } break; }
        } }
      bool to=now()-w.t0>pathTimeout;
      if(eof||to){ if(to&&!eof) kill(w.pid,SIGKILL); int st; waitpid(w.pid,&st,0); close(w.fd); srv[w.slot].busy=false; if(!w.done||w.how=="error") stopSrv(srv[w.slot]);
        if(w.done){ if(w.how=="assume") ++killed; else ++paths; }
        else if(to){ ++timeouts; ++paths; if(crashv.size()<40) crashv.push_back({"timeout",packAssign(w.it.a)}); }
        else { ++crashes; ++paths; char b[64]; if(WIFSIGNALED(st)) snprintf(b,64,"crash signal %d",WTERMSIG(st)); else snprintf(b,64,"exit %d",WEXITSTATUS(st)); if(crashv.size()<40) crashv.push_back({b,packAssign(w.it.a)}); }
        ws.erase(ws.begin()+i); pf_.erase(pf_.begin()+i); continue; }
      ++i; }
  }
  if(stopped) for(auto& w:ws){ kill(w.pid,SIGKILL); waitpid(w.pid,0,0); }
  for(auto& v:srv) stopSrv(v);
  FILE* f=fopen(outFile,"w"); if(!f){ perror(outFile); return 2; }
  #define LL(x) (unsigned long long)(x)
  fprintf(f,"{\"scenario\":\"%s\",\"complete\":%s,\"stop\":\"%s\",\"paths\":%llu,\"assume_killed\":%llu,\"pending\":%llu,\"items\":%llu,\"crashes\":%llu,\"timeouts\":%llu,\"max_pc\":%llu,\"branch_steps\":%llu,\"observations\":%llu,\"wall\":%.3f,\n",scen,(!stopped&&errs.empty()&&unk.empty()&&!timeouts)?"true":"false",stopWhy.c_str(),LL(paths),LL(killed),LL(q.size()),LL(items),LL(crashes),LL(timeouts),LL(maxpc),LL(steps),LL(totobs),now()-T0);
  fprintf(f,"\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"branches\":%llu,\"asserts\":%llu,\"concs\":%llu,\"mem_checks\":%llu,\"native_overwrites\":%llu,\"max_nodes\":%llu,\n",LL(SH->queries),LL(SH->sat),LL(SH->unsat),LL(SH->unknown),LL(SH->cached),SH->solverNs*1e-9,LL(SH->branches),LL(SH->asserts),LL(SH->concs),LL(SH->memChecks),LL(SH->nativeOverwrites),LL(nodeMax));
  auto mapj=[&](const char* n,std::map<std::string,std::string>& m){ fprintf(f,"\"%s\":[",n); bool c=false; for(auto& p:m){ fprintf(f,"%s[\"%s\",\"%s\"]",c?",":"",esc(p.first).c_str(),esc(p.second).c_str()); c=true; } fprintf(f,"],\n"); };
  fprintf(f,"\"violations\":["); { bool c=false; for(auto& p:viol){ fprintf(f,"%s[\"%s\",\"%s\",%llu]",c?",":"",esc(p.first).c_str(),esc(p.second.first).c_str(),LL(violN[p.first])); c=true; } } fprintf(f,"],\n");
  mapj("mem",memv); mapj("known",known);
  fprintf(f,"\"crash\":["); for(size_t i=0;i<crashv.size();++i) fprintf(f,"%s[\"%s\",\"%s\"]",i?",":"",esc(crashv[i].first).c_str(),esc(crashv[i].second).c_str()); fprintf(f,"],\n");
  fprintf(f,"\"errors\":["); for(size_t i=0;i<errs.size();++i) fprintf(f,"%s\"%s\"",i?",":"",esc(errs[i]).c_str()); fprintf(f,"],\n");
  fprintf(f,"\"unknown_at\":["); { bool c=false; for(auto& p:unk){ fprintf(f,"%s[\"%s\",%llu]",c?",":"",esc(p.first).c_str(),LL(p.second)); c=true; } } fprintf(f,"],\n");
  fprintf(f,"\"reached\":["); { bool c=false; for(auto& p:reached){ fprintf(f,"%s\"%s\"",c?",":"",esc(p).c_str()); c=true; } } fprintf(f,"],\n");
  fprintf(f,"\"sites\":["); { bool c=false; for(u32 i=0;i<4096;++i) if(SH->sites[i]){ fprintf(f,"%s[\"%s\",%u,%llu]",c?",":"",esc(SH->sites[i]).c_str(),SH->siteKind[i],LL(SH->siteCount[i])); c=true; } } fprintf(f,"],\n");
  fprintf(f,"\"samples\":["); for(size_t i=0;i<samples.size();++i) fprintf(f,"%s[\"%s\",\"%s\"]",i?",":"",esc(samples[i].first).c_str(),samples[i].second.c_str()); fprintf(f,"]}\n");
  fclose(f); return 0;
}
