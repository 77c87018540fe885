// SymxPass: instruments every function so that it maintains, next to each concrete SSA value, a handle to the
// bit-vector expression ("shadow") of that value over the symbolic inputs.  A null handle means "concrete".
// The runtime interface is in rt.cpp.  Anything that has no exact translation falls back to concretisation:
// the runtime pins the value by a path constraint and explores the other values as further paths.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Analysis/CFG.h"
#include <map>
#include <string>
using namespace llvm;

namespace {

enum BinOp { // shared with rt.cpp
  B_ADD=1,B_SUB,B_MUL,B_UDIV,B_SDIV,B_UREM,B_SREM,B_SHL,B_LSHR,B_ASHR,B_AND,B_OR,B_XOR,
  B_UMIN,B_UMAX,B_SMIN,B_SMAX,B_UADDO,B_USUBO,B_SADDO,B_SSUBO,B_UMULO,B_SMULO,
  B_UADDSAT,B_USUBSAT,B_SADDSAT,B_SSUBSAT,
  B_FADD,B_FSUB,B_FMUL,B_FDIV
};
enum CastOp { C_TRUNC=1,C_ZEXT,C_SEXT,C_FPTRUNC,C_FPEXT,C_FPTOSI,C_FPTOUI,C_SITOFP,C_UITOFP,C_BSWAP,C_CTPOP,C_CTLZ,C_CTTZ,C_ABS,C_FABS,C_FNEG };

typedef SmallVector<Value*,2> Leaves;

static const std::map<std::string,std::string>& replacements() {
  static std::map<std::string,std::string> m;
  if (m.empty()) {
    m["_Znwm"]="__symx_new"; m["_Znam"]="__symx_new"; m["_ZdlPv"]="__symx_free"; m["_ZdaPv"]="__symx_free";
    m["_ZdlPvm"]="__symx_free2"; m["_ZdaPvm"]="__symx_free2";
    m["malloc"]="__symx_malloc"; m["free"]="__symx_free"; m["calloc"]="__symx_calloc"; m["realloc"]="__symx_realloc";
    for (const char* n : {"memcmp","bcmp","strlen","strcmp","strncmp","memchr","strchr","strrchr","strcpy","strncpy","strcat","strstr",
         "wcslen","isspace","isdigit","isalpha","isalnum","isupper","islower","toupper","tolower","isxdigit","ispunct","isprint",
         "atoi","atol","strtol","strtoul","strtoll","abs","labs","strpbrk","strspn","strcspn","isgraph","strcasecmp","strncasecmp","strnlen","strncat","stpcpy","strdup","memrchr","isblank","iscntrl","atoll","strtoull","llabs"})
      m[n]=std::string("symxlib_")+n;
    m["__isoc23_strtol"]="symxlib_strtol"; m["__isoc23_strtoul"]="symxlib_strtoul"; m["__isoc23_strtoll"]="symxlib_strtoll"; m["__isoc23_strtoull"]="symxlib_strtoull"; m["__strdup"]="symxlib_strdup";
    for (const char* n : {"u_isspace","u_isdigit","u_islower","u_isupper","u_strlen","u_strncmp","u_strncmpCodePointOrder","u_UCharsToChars","ucnv_open","ucnv_close","ucnv_reset","ucnv_getMaxCharSize","ucnv_fromUChars","ucnv_toUChars","u_strToUTF8","u_strToUTF8WithSub","u_memcmp","u_strCompare"})
      m[std::string(n)+"_74"]=std::string("symxlib_")+n;
  }
  return m;
}

struct Instr {
  Module& M; LLVMContext& C; const DataLayout& DL;
  Type *PT,*I64,*I32,*VT; Constant* NullP;
  FunctionCallee fEntry,fCall,fGetRet,fBin,fCmp,fFCmp,fCast,fSelect,fGepOff,fGepFin,fLoad,fAddr,fStore,fClear,fMemConc,
    fConc,fMemcpy,fMemset,fBranch,fSwitch,fAlloca,fFsh,fNativeMem,fSelBr;
  GlobalVariable *gArg,*gRet,*gRetTag;
  std::map<std::string,Constant*> strs;

  Instr(Module& m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    PT=PointerType::getUnqual(C); I64=Type::getInt64Ty(C); I32=Type::getInt32Ty(C); VT=Type::getVoidTy(C);
    NullP=ConstantPointerNull::get(cast<PointerType>(PT));
    auto fn=[&](const char* n,Type* r,std::initializer_list<Type*> a){ return M.getOrInsertFunction(n,FunctionType::get(r,ArrayRef<Type*>(a.begin(),a.size()),false)); };
    fEntry=fn("__symx_entry",PT,{PT,I32,PT});
    fCall=fn("__symx_call",VT,{PT,I32,PT,PT});
    fGetRet=fn("__symx_getret",PT,{PT});
    fBin=fn("__symx_bin",PT,{I32,I32,PT,I64,PT,I64});
    fCmp=fn("__symx_cmp",PT,{I32,I32,PT,I64,PT,I64});
    fFCmp=fn("__symx_fcmp",PT,{I32,I32,PT,I64,PT,I64});
    fCast=fn("__symx_cast",PT,{I32,I32,I32,PT,I64});
    fSelect=fn("__symx_select",PT,{I32,PT,I32,PT,I64,PT,I64});
    fSelBr=fn("__symx_selbr",VT,{PT,I32,PT});
    fGepOff=fn("__symx_gepoff",PT,{PT,PT,I32,I64});
    fGepFin=fn("__symx_gepfin",PT,{PT,PT,PT});
    fLoad=fn("__symx_load",PT,{PT,PT,I32,I32,I64,I32});
    fAddr=fn("__symx_addr",VT,{PT,PT,I32,I32,PT});
    fStore=fn("__symx_store",VT,{PT,I32,PT,I64});
    fClear=fn("__symx_clear",VT,{PT,I64});
    fMemConc=fn("__symx_memconc",VT,{PT,I64,PT});
    fConc=fn("__symx_conc",VT,{PT,I64,PT});
    fMemcpy=fn("__symx_memcpy",VT,{PT,PT,I64});
    fMemset=fn("__symx_memset",VT,{PT,PT,I64});
    fBranch=fn("__symx_branch",VT,{PT,I32,PT});
    fSwitch=fn("__symx_switch",VT,{PT,I32,I64,I32,PT,PT});
    fAlloca=fn("__symx_alloca",VT,{PT,I64,I32});
    fFsh=fn("__symx_fsh",PT,{I32,I32,PT,I64,PT,I64,PT,I64});
    fNativeMem=fn("__symx_nativemem",VT,{PT,PT,PT});
    gArg=ext("__symx_argv",ArrayType::get(PT,64)); gRet=ext("__symx_retv",ArrayType::get(PT,16)); gRetTag=ext("__symx_rettag",PT);
  }
  GlobalVariable* ext(const char* n,Type* t){
    if (auto* g=M.getNamedGlobal(n)) return g;
    auto* g=new GlobalVariable(M,t,false,GlobalValue::ExternalLinkage,nullptr,n); return g;
  }
  Constant* str(const std::string& s){
    auto it=strs.find(s); if(it!=strs.end()) return it->second;
    Constant* d=ConstantDataArray::getString(C,s);
    auto* g=new GlobalVariable(M,d->getType(),true,GlobalValue::PrivateLinkage,d,"__symx_s");
    return strs[s]=g;
  }

  // ---- per function state
  Function* F; DenseMap<Value*,Leaves> sh; std::vector<std::pair<PHINode*,SmallVector<PHINode*,2>>> phis;
  std::string fname; Constant* fsite;

  static bool scalarOK(Type* t,const DataLayout& DL){
    if (t->isIntegerTy()) return t->getIntegerBitWidth()<=64;
    return t->isPointerTy()||t->isFloatTy()||t->isDoubleTy();
  }
  // number of leaves; -1 if the type is opaque
  int nleaves(Type* t){
    if (scalarOK(t,DL)) return 1;
    if (auto* s=dyn_cast<StructType>(t)){ int n=0; for(Type* e:s->elements()){int k=nleaves(e); if(k<0) return -1; n+=k;} return n; }
    if (t->isVoidTy()) return 0;
    return -1;
  }
  unsigned width(Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); return (unsigned)DL.getTypeSizeInBits(t); }
  const Leaves& get(Value* v){
    auto it=sh.find(v); if(it!=sh.end()) return it->second;
    int n=nleaves(v->getType()); Leaves l; for(int i=0;i<n;++i) l.push_back(NullP);
    return sh[v]=l;
  }
  Value* get1(Value* v){ auto& l=get(v); return l.size()==1? l[0] : (Value*)NullP; }
  bool isNull(Value* e){ return e==NullP; }
  void set1(Value* v,Value* e){ Leaves l; l.push_back(e); sh[v]=l; }
  // concrete value as i64
  Value* v64(IRBuilder<>& B,Value* v){
    Type* t=v->getType();
    if (t->isIntegerTy()) return B.CreateZExtOrTrunc(v,I64);
    if (t->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if (t->isDoubleTy()) return B.CreateBitCast(v,I64);
    return ConstantInt::get(I64,0);
  }
  Value* c32(unsigned x){ return ConstantInt::get(I32,x); }
  Value* c64(uint64_t x){ return ConstantInt::get(I64,x); }
  Constant* site(Instruction* I){
    if (auto& dl=I->getDebugLoc()){
      std::string f=dl->getFilename().str(); size_t p=f.rfind('/'); if(p!=std::string::npos) f=f.substr(p+1);
      return str(fname+"|"+f+":"+std::to_string(dl.getLine()));
    }
    return fsite;
  }
  // concretise all shadows of a value before instruction I (opaque use)
  void conc(IRBuilder<>& B,Value* v,Instruction* I){
    Type* t=v->getType();
    if (scalarOK(t,DL)){ Value* e=get1(v); if(!isNull(e)) B.CreateCall(fConc,{e,v64(B,v),site(I)}); }
    else if (auto* st=dyn_cast<StructType>(t)) {
      auto& l=get(v); bool any=false; for(auto* e:l) if(!isNull(e)) any=true; if(!any) return;
      concStruct(B,v,st,l,0,I);
    }
  }
  int concStruct(IRBuilder<>& B,Value* v,StructType* st,const Leaves& l,int k,Instruction* I){
    for(unsigned i=0;i<st->getNumElements();++i){
      Value* x=B.CreateExtractValue(v,i);
      if (auto* s2=dyn_cast<StructType>(st->getElementType(i))) k=concStruct(B,x,s2,l,k,I);
      else { if(!isNull(l[k])) B.CreateCall(fConc,{l[k],v64(B,x),site(I)}); ++k; }
    }
    return k;
  }
  void addrCheck(IRBuilder<>& B,Value* p,uint64_t size,int kind,Instruction* I){
    Value* e=get1(p); if(!isNull(e)) B.CreateCall(fAddr,{p,e,c32((unsigned)size),c32(kind),site(I)});
  }

  Value* cmpOp(IRBuilder<>& B,unsigned w,CmpInst::Predicate p,Value* ea,Value* va,Value* eb,Value* vb){
    return B.CreateCall(fCmp,{c32(p),c32(w),ea,va,eb,vb});
  }
  unsigned leafIndex(Type* t,ArrayRef<unsigned> idx){
    unsigned k=0; 
    for(unsigned i:idx){ auto* st=cast<StructType>(t); for(unsigned j=0;j<i;++j) k+=nleaves(st->getElementType(j)); t=st->getElementType(i);} return k;
  }

  void loadLeaves(IRBuilder<>& B,Type* t,Value* p,uint64_t off,Value* v,Leaves& out){
    if (scalarOK(t,DL)){
      Value* q=off? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C),p,off):p;
      out.push_back(B.CreateCall(fLoad,{q,off?(Value*)NullP:get1(p),c32(DL.getTypeStoreSize(t)),c32(width(t)),v64(B,v),c32(t->isPointerTy())}));
      return;
    }
    auto* st=cast<StructType>(t); auto* SL=DL.getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();++i) loadLeaves(B,st->getElementType(i),p,off+SL->getElementOffset(i),B.CreateExtractValue(v,i),out);
  }
  void storeLeaves(IRBuilder<>& B,Type* t,Value* p,uint64_t off,Value* v,const Leaves& l,unsigned& k){
    if (scalarOK(t,DL)){
      Value* q=off? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C),p,off):p;
      Value* e=l[k++];
      if(isNull(e)) B.CreateCall(fClear,{q,c64(DL.getTypeStoreSize(t))});
      else B.CreateCall(fStore,{q,c32(DL.getTypeStoreSize(t)),e,v64(B,v)});
      return;
    }
    auto* st=cast<StructType>(t); auto* SL=DL.getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();++i) storeLeaves(B,st->getElementType(i),p,off+SL->getElementOffset(i),B.CreateExtractValue(v,i),l,k);
  }

  Instruction* after(Instruction* I){ return I->getNextNode(); }

  void visitCall(CallBase* CB){
    IRBuilder<> B(CB);
    if (CB->isInlineAsm()){ for(auto& a:CB->args()) conc(B,a,CB); return; }
    if (auto* II=dyn_cast<IntrinsicInst>(CB)){ if(visitIntrinsic(II)) return; for(auto& a:II->args()) if(!a->getType()->isMetadataTy()) conc(B,a,CB); return; }
    Function* callee=CB->getCalledFunction();
    if (callee){
      StringRef n=callee->getName();
      auto& R=replacements(); auto it=R.find(n.str());
      if (it!=R.end() && callee->isDeclaration() && !F->getName().starts_with("symxlib_") && !(n.starts_with("u_") && M.getName().contains("icu_model"))){
        // an instrumented function with the same type, or an rt function (names starting with __symx)
        FunctionCallee nf=M.getOrInsertFunction(it->second,callee->getFunctionType());
        CB->setCalledFunction(nf); callee=dyn_cast<Function>(nf.getCallee());
        if (callee) callee->setAttributes(AttributeList());
        CB->setAttributes(AttributeList());
        n=callee->getName();
      }
      if (n.starts_with("__symx_")){ for(auto& a:CB->args()) conc(B,a,CB); return; }
      if (n.starts_with("symx_")){ // harness API: pass shadows by the argument array, result shadow by retv (no registry check)
        passArgs(B,CB,CB->getCalledOperand(),true); fetchRet(CB,NullP); return; }
      if (n.starts_with("__cxa_")||n.starts_with("_Unwind")||n=="__gxx_personality_v0"||n=="_ZSt9terminatev") {
        for(auto& a:CB->args()) conc(B,a,CB); return; }
    } else conc(B,CB->getCalledOperand(),CB);
    for(unsigned i=0;i<CB->arg_size();++i) if(CB->isByValArgument(i)) B.CreateCall(fMemConc,{CB->getArgOperand(i),c64(DL.getTypeAllocSize(CB->getParamByValType(i))),site(CB)});
    passArgs(B,CB,CB->getCalledOperand(),false);
    if (CB->isMustTailCall()) { errs()<<"symx: musttail in "<<F->getName()<<"\n"; return; }
    fetchRet(CB,CB->getCalledOperand());
  }
  void passArgs(IRBuilder<>& B,CallBase* CB,Value* target,bool api){
    // concrete argument values: needed by the runtime when the callee turns out to be native
    SmallVector<std::pair<Value*,Value*>,8> lv; // leaf, concrete
    bool any=false; bool anyptr=false;
    for(auto& a:CB->args()){
      Type* t=a->getType();
      int n=nleaves(t);
      if(n<0) continue;
      if(n==1&&scalarOK(t,DL)){ Value* e=get1(a); if(!isNull(e)) any=true; if(t->isPointerTy()&&!isa<Constant>(a)) anyptr=true; lv.push_back({e,a}); }
      else { auto& l=get(a); unsigned k=0; for(auto* e:l){ if(!isNull(e)) any=true; lv.push_back({e,nullptr}); ++k; } if(any) conc(B,a,CB); for(auto&x:lv) if(!x.second) x.first=NullP; }
    }
    if(lv.size()>60){ for(auto& a:CB->args()) conc(B,a,CB); lv.clear(); any=false; }
    bool direct=false;
    if (auto* f=dyn_cast<Function>(target)) direct=!f->isDeclaration()&&!f->hasAvailableExternallyLinkage();
    if(!api && !any && (direct||!anyptr)) return;
    // store shadows and (for possible native callees) the concrete values
    for(unsigned i=0;i<lv.size();++i)
      B.CreateStore(lv[i].first,B.CreateConstInBoundsGEP2_64(ArrayType::get(PT,64),gArg,0,i));
    if(!api && !direct){
      auto* gv=ext("__symx_argc",ArrayType::get(I64,64));
      for(unsigned i=0;i<lv.size();++i){
        Value* c=lv[i].second? v64(B,lv[i].second):c64(0);
        B.CreateStore(c,B.CreateConstInBoundsGEP2_64(ArrayType::get(I64,64),gv,0,i));
      }
      // mask of pointer args
      uint64_t pm=0; for(unsigned i=0;i<lv.size();++i) if(lv[i].second&&lv[i].second->getType()->isPointerTy()) pm|=1ull<<i;
      auto* gm=ext("__symx_argp",I64); B.CreateStore(c64(pm),gm);
      std::string cn=isa<Function>(target)?cast<Function>(target)->getName().str():"<indirect>";
      B.CreateCall(fCall,{target,c32(lv.size()),str(cn),site(CB)});
    } else if(!api) {
      auto* gt=ext("__symx_calltag",PT); B.CreateStore(target,gt);
    }
  }
  void fetchRet(CallBase* CB,Value* target){
    Type* t=CB->getType(); int n=nleaves(t);
    if(n<=0||n>16) return;
    Instruction* ip;
    if (auto* inv=dyn_cast<InvokeInst>(CB)){
      ip=&*inv->getNormalDest()->getFirstInsertionPt(); // own block, see splitInvokes
    } else ip=after(CB);
    IRBuilder<> B(ip);
    Value* arr=B.CreateCall(fGetRet,{target});
    Leaves l; for(int i=0;i<n;++i) l.push_back(B.CreateLoad(PT,B.CreateConstInBoundsGEP1_64(PT,arr,i)));
    sh[CB]=l;
  }

  bool visitIntrinsic(IntrinsicInst* II){
    IRBuilder<> B(II); IRBuilder<> A(after(II)?after(II):II);
    auto id=II->getIntrinsicID();
    auto bin=[&](int op){
      Value*a=II->getArgOperand(0),*b=II->getArgOperand(1);
      if(!scalarOK(a->getType(),DL)) return false;
      Value*ea=get1(a),*eb=get1(b); if(isNull(ea)&&isNull(eb)) return true;
      set1(II,A.CreateCall(fBin,{c32(op),c32(width(a->getType())),ea,v64(A,a),eb,v64(A,b)})); return true; };
    auto ovf=[&](int op,int oop){
      Value*a=II->getArgOperand(0),*b=II->getArgOperand(1);
      if(!scalarOK(a->getType(),DL)) return false;
      Value*ea=get1(a),*eb=get1(b); if(isNull(ea)&&isNull(eb)) return true;
      unsigned w=width(a->getType());
      Leaves l; l.push_back(A.CreateCall(fBin,{c32(op),c32(w),ea,v64(A,a),eb,v64(A,b)}));
      l.push_back(A.CreateCall(fBin,{c32(oop),c32(w),ea,v64(A,a),eb,v64(A,b)})); sh[II]=l; return true; };
    auto un=[&](int op){
      Value*a=II->getArgOperand(0); if(!scalarOK(a->getType(),DL)) return false;
      Value*ea=get1(a); if(isNull(ea)) return true; unsigned w=width(a->getType());
      set1(II,A.CreateCall(fCast,{c32(op),c32(w),c32(w),ea,v64(A,a)})); return true; };
    switch(id){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::eh_typeid_for: case Intrinsic::is_constant:
    case Intrinsic::objectsize: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::trap: case Intrinsic::stacksave: case Intrinsic::stackrestore:
    case Intrinsic::threadlocal_address: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::donothing: case Intrinsic::prefetch:
      return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      Value*d=II->getArgOperand(0),*s=II->getArgOperand(1),*n=II->getArgOperand(2);
      conc(B,n,II); conc(B,d,II); conc(B,s,II);
      B.CreateCall(fMemcpy,{d,s,B.CreateZExtOrTrunc(n,I64)}); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      Value*d=II->getArgOperand(0),*v=II->getArgOperand(1),*n=II->getArgOperand(2);
      conc(B,n,II); conc(B,d,II);
      B.CreateCall(fMemset,{d,get1(v),B.CreateZExtOrTrunc(n,I64)}); return true; }
    case Intrinsic::umin: return bin(B_UMIN); case Intrinsic::umax: return bin(B_UMAX);
    case Intrinsic::smin: return bin(B_SMIN); case Intrinsic::smax: return bin(B_SMAX);
    case Intrinsic::uadd_sat: return bin(B_UADDSAT); case Intrinsic::usub_sat: return bin(B_USUBSAT);
    case Intrinsic::sadd_sat: return bin(B_SADDSAT); case Intrinsic::ssub_sat: return bin(B_SSUBSAT);
    case Intrinsic::uadd_with_overflow: return ovf(B_ADD,B_UADDO); case Intrinsic::usub_with_overflow: return ovf(B_SUB,B_USUBO);
    case Intrinsic::sadd_with_overflow: return ovf(B_ADD,B_SADDO); case Intrinsic::ssub_with_overflow: return ovf(B_SUB,B_SSUBO);
    case Intrinsic::umul_with_overflow: return ovf(B_MUL,B_UMULO); case Intrinsic::smul_with_overflow: return ovf(B_MUL,B_SMULO);
    case Intrinsic::bswap: return un(C_BSWAP); case Intrinsic::ctpop: return un(C_CTPOP); case Intrinsic::ctlz: return un(C_CTLZ);
    case Intrinsic::cttz: return un(C_CTTZ); case Intrinsic::abs: return un(C_ABS); case Intrinsic::fabs: return un(C_FABS);
    case Intrinsic::expect: set1(II,get1(II->getArgOperand(0))); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Value*a=II->getArgOperand(0),*b=II->getArgOperand(1),*c=II->getArgOperand(2);
      if(!scalarOK(a->getType(),DL)) return false;
      Value*ea=get1(a),*eb=get1(b),*ec=get1(c); if(isNull(ea)&&isNull(eb)&&isNull(ec)) return true;
      set1(II,A.CreateCall(fFsh,{c32(id==Intrinsic::fshl),c32(width(a->getType())),ea,v64(A,a),eb,v64(A,b),ec,v64(A,c)})); return true; }
    default: return false;
    }
  }

  void visit(Instruction* I){
    IRBuilder<> B(I);
    switch(I->getOpcode()){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      Value*a=I->getOperand(0),*b=I->getOperand(1); Type* t=I->getType();
      if(!scalarOK(t,DL)){ conc(B,a,I); conc(B,b,I); return; }
      Value*ea=get1(a),*eb=get1(b); if(isNull(ea)&&isNull(eb)) return;
      int op=0; switch(I->getOpcode()){ case Instruction::Add:op=B_ADD;break; case Instruction::Sub:op=B_SUB;break; case Instruction::Mul:op=B_MUL;break;
        case Instruction::UDiv:op=B_UDIV;break; case Instruction::SDiv:op=B_SDIV;break; case Instruction::URem:op=B_UREM;break; case Instruction::SRem:op=B_SREM;break;
        case Instruction::Shl:op=B_SHL;break; case Instruction::LShr:op=B_LSHR;break; case Instruction::AShr:op=B_ASHR;break;
        case Instruction::And:op=B_AND;break; case Instruction::Or:op=B_OR;break; case Instruction::Xor:op=B_XOR;break;
        case Instruction::FAdd:op=B_FADD;break; case Instruction::FSub:op=B_FSUB;break; case Instruction::FMul:op=B_FMUL;break; case Instruction::FDiv:op=B_FDIV;break; }
      set1(I,B.CreateCall(fBin,{c32(op),c32(width(t)),ea,v64(B,a),eb,v64(B,b)})); return; }
    case Instruction::FNeg: { Value*a=I->getOperand(0); if(!scalarOK(a->getType(),DL)){conc(B,a,I);return;} Value*ea=get1(a); if(isNull(ea)) return;
      set1(I,B.CreateCall(fCast,{c32(C_FNEG),c32(width(a->getType())),c32(width(a->getType())),ea,v64(B,a)})); return; }
    case Instruction::ICmp: { Value*a=I->getOperand(0),*b=I->getOperand(1);
      if(!scalarOK(a->getType(),DL)){ conc(B,a,I); conc(B,b,I); return; }
      Value*ea=get1(a),*eb=get1(b); if(isNull(ea)&&isNull(eb)) return;
      set1(I,cmpOp(B,width(a->getType()),cast<CmpInst>(I)->getPredicate(),ea,v64(B,a),eb,v64(B,b))); return; }
    case Instruction::FCmp: { Value*a=I->getOperand(0),*b=I->getOperand(1);
      if(!scalarOK(a->getType(),DL)){ conc(B,a,I); conc(B,b,I); return; }
      Value*ea=get1(a),*eb=get1(b); if(isNull(ea)&&isNull(eb)) return;
      set1(I,B.CreateCall(fFCmp,{c32(cast<CmpInst>(I)->getPredicate()),c32(width(a->getType())),ea,v64(B,a),eb,v64(B,b)})); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
      Value*a=I->getOperand(0); if(!scalarOK(a->getType(),DL)||!scalarOK(I->getType(),DL)){ 
        conc(B,a,I); return; }
      Value*ea=get1(a); if(isNull(ea)) return;
      int op=0; switch(I->getOpcode()){case Instruction::Trunc:op=C_TRUNC;break;case Instruction::ZExt:op=C_ZEXT;break;case Instruction::SExt:op=C_SEXT;break;
        case Instruction::FPTrunc:op=C_FPTRUNC;break;case Instruction::FPExt:op=C_FPEXT;break;case Instruction::FPToSI:op=C_FPTOSI;break;case Instruction::FPToUI:op=C_FPTOUI;break;
        case Instruction::SIToFP:op=C_SITOFP;break;case Instruction::UIToFP:op=C_UITOFP;break;}
      set1(I,B.CreateCall(fCast,{c32(op),c32(width(a->getType())),c32(width(I->getType())),ea,v64(B,a)})); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
      Value*a=I->getOperand(0);
      if(!scalarOK(a->getType(),DL)||!scalarOK(I->getType(),DL)){ if(a->getType()==I->getType()&&nleaves(I->getType())>0) sh[I]=get(a); else conc(B,a,I); return; }
      Value*ea=get1(a); if(isNull(ea)) return;
      unsigned w1=width(a->getType()),w2=width(I->getType());
      if(w1==w2) set1(I,ea); else set1(I,B.CreateCall(fCast,{c32(w1>w2?C_TRUNC:C_ZEXT),c32(w1),c32(w2),ea,v64(B,a)}));
      return; }
    case Instruction::Select: {
      auto* S=cast<SelectInst>(I); Value*c=S->getCondition(); Type* t=I->getType();
      if(!c->getType()->isIntegerTy(1)||nleaves(t)<0){ if(c->getType()->isIntegerTy(1)){ Value* ec=get1(c); if(!isNull(ec)) B.CreateCall(fSelBr,{ec,B.CreateZExt(c,I32),site(I)}); } return; }
      Value* ec=get1(c); Value*a=S->getTrueValue(),*b=S->getFalseValue();
      if(scalarOK(t,DL)&&!t->isPointerTy()){
        Value*ea=get1(a),*eb=get1(b); if(isNull(ec)&&isNull(ea)&&isNull(eb)) return;
        set1(I,B.CreateCall(fSelect,{c32(width(t)),ec,B.CreateZExt(c,I32),ea,v64(B,a),eb,v64(B,b)})); return; }
      if(!isNull(ec)) B.CreateCall(fSelBr,{ec,B.CreateZExt(c,I32),site(I)});
      Leaves la=get(a),lb=get(b),r; for(unsigned i=0;i<la.size();++i) r.push_back(isNull(la[i])&&isNull(lb[i])?(Value*)NullP:B.CreateSelect(c,la[i],lb[i]));
      sh[I]=r; return; }
    case Instruction::GetElementPtr: {
      auto* G=cast<GetElementPtrInst>(I); if(!G->getType()->isPointerTy()) { return; }
      Value* eb=get1(G->getPointerOperand()); Value* off=NullP;
      IRBuilder<> A(after(I));
      for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it){
        Value* idx=it.getOperand(); if(isa<Constant>(idx)) continue; if(it.getStructTypeOrNull()) continue;
        Value* ei=get1(idx); if(isNull(ei)) continue;
        uint64_t sz=DL.getTypeAllocSize(it.getIndexedType());
        off=A.CreateCall(fGepOff,{off,ei,c32(width(idx->getType())),c64(sz)});
      }
      if(isNull(eb)&&isNull(off)) return;
      set1(I,A.CreateCall(fGepFin,{eb,off,I})); return; }
    case Instruction::Load: {
      auto* L=cast<LoadInst>(I); Type* t=L->getType(); Value* p=L->getPointerOperand();
      uint64_t sz=DL.getTypeStoreSize(t);
      if(nleaves(t)<0){ conc(B,p,I); B.CreateCall(fMemConc,{p,c64(sz),site(I)}); return; }
      addrCheck(B,p,sz,scalarOK(t,DL)?(t->isPointerTy()?1:0):1,I);
      IRBuilder<> A(after(I)); Leaves l; loadLeaves(A,t,p,0,I,l); sh[I]=l; return; }
    case Instruction::Store: {
      auto* S=cast<StoreInst>(I); Value*v=S->getValueOperand(),*p=S->getPointerOperand(); Type* t=v->getType();
      uint64_t sz=DL.getTypeStoreSize(t);
      addrCheck(B,p,sz,2,I);
      IRBuilder<> A(after(I));
      if(nleaves(t)<0){ A.CreateCall(fClear,{p,c64(sz)}); return; }
      Leaves l=get(v); bool any=false; for(auto*e:l) if(!isNull(e)) any=true;
      if(!any) A.CreateCall(fClear,{p,c64(sz)}); else { unsigned k=0; storeLeaves(A,t,p,0,v,l,k); }
      return; }
    case Instruction::AtomicRMW: { auto* R=cast<AtomicRMWInst>(I); conc(B,R->getPointerOperand(),I); conc(B,R->getValOperand(),I);
      B.CreateCall(fMemConc,{R->getPointerOperand(),c64(DL.getTypeStoreSize(R->getValOperand()->getType())),site(I)});
      IRBuilder<> A(after(I)); A.CreateCall(fClear,{R->getPointerOperand(),c64(DL.getTypeStoreSize(R->getValOperand()->getType()))}); return; }
    case Instruction::AtomicCmpXchg: { auto* R=cast<AtomicCmpXchgInst>(I); conc(B,R->getPointerOperand(),I); conc(B,R->getNewValOperand(),I); conc(B,R->getCompareOperand(),I);
      uint64_t s=DL.getTypeStoreSize(R->getNewValOperand()->getType());
      B.CreateCall(fMemConc,{R->getPointerOperand(),c64(s),site(I)}); IRBuilder<> A(after(I)); A.CreateCall(fClear,{R->getPointerOperand(),c64(s)}); return; }
    case Instruction::ExtractValue: { auto* E=cast<ExtractValueInst>(I); Value* a=E->getAggregateOperand();
      if(nleaves(a->getType())<0) return; auto& la=get(a); unsigned k=leafIndex(a->getType(),E->getIndices()); int n=nleaves(E->getType());
      Leaves r; for(int i=0;i<n;++i) r.push_back(la[k+i]); sh[I]=r; return; }
    case Instruction::InsertValue: { auto* E=cast<InsertValueInst>(I); Value* a=E->getAggregateOperand(),*v=E->getInsertedValueOperand();
      if(nleaves(a->getType())<0){ conc(B,v,I); return; }
      Leaves r=get(a); unsigned k=leafIndex(a->getType(),E->getIndices()); auto lv=get(v); for(unsigned i=0;i<lv.size();++i) r[k+i]=lv[i]; sh[I]=r; return; }
    case Instruction::Br: { auto* R=cast<BranchInst>(I); if(!R->isConditional()) return; Value* c=R->getCondition(); Value* e=get1(c); if(isNull(e)) return;
      B.CreateCall(fBranch,{e,B.CreateZExt(c,I32),site(I)}); return; }
    case Instruction::Switch: { auto* S=cast<SwitchInst>(I); Value* c=S->getCondition(); if(!scalarOK(c->getType(),DL)) return; Value* e=get1(c); if(isNull(e)) return;
      std::vector<uint64_t> vals; for(auto& cs:S->cases()) vals.push_back(cs.getCaseValue()->getZExtValue());
      Constant* arr=ConstantDataArray::get(C,vals); auto* g=new GlobalVariable(M,arr->getType(),true,GlobalValue::PrivateLinkage,arr,"__symx_sw");
      B.CreateCall(fSwitch,{e,c32(width(c->getType())),v64(B,c),c32(vals.size()),g,site(I)}); return; }
    case Instruction::IndirectBr: conc(B,I->getOperand(0),I); return;
    case Instruction::Ret: {
      Value* v=cast<ReturnInst>(I)->getReturnValue(); if(!v) return; int n=nleaves(v->getType()); if(n<0||n>16){ conc(B,v,I); return; }
      if(auto* ci=dyn_cast_or_null<CallInst>(I->getPrevNode())) if(ci->isMustTailCall()) return;
      auto l=get(v); 
      if(!retAny) return;
      for(int i=0;i<n;++i) B.CreateStore(l[i],B.CreateConstInBoundsGEP2_64(ArrayType::get(PT,16),gRet,0,i));
      B.CreateStore(F,gRetTag); return; }
    case Instruction::Call: case Instruction::Invoke: visitCall(cast<CallBase>(I)); return;
    case Instruction::Alloca: { auto* A_=cast<AllocaInst>(I); 
      IRBuilder<> A(after(I));
      Value* n=c64(DL.getTypeAllocSize(A_->getAllocatedType())); if(A_->isArrayAllocation()){ conc(B,A_->getArraySize(),I); n=A.CreateMul(n,A.CreateZExtOrTrunc(A_->getArraySize(),I64)); }
      A.CreateCall(fAlloca,{I,n,c32(A_->getAllocatedType()->isAggregateType()||A_->isArrayAllocation())}); return; }
    case Instruction::ExtractElement: case Instruction::InsertElement: case Instruction::ShuffleVector: case Instruction::AddrSpaceCast: case Instruction::VAArg:
      for(auto& o:I->operands()) conc(B,o,I); return;
    default: return;
    }
  }

  static void splitInvokes(Function& f){
    std::vector<InvokeInst*> v; for(auto& BB:f) if(auto* i=dyn_cast<InvokeInst>(BB.getTerminator())) v.push_back(i);
    for(auto* i:v){ BasicBlock* nd=i->getNormalDest(); if(nd->getSinglePredecessor()&&!isa<PHINode>(nd->front())) continue;
      BasicBlock* nb=BasicBlock::Create(f.getContext(),"symx.inv",&f,nd); BranchInst::Create(nd,nb);
      i->setNormalDest(nb);
      for(auto& P:nd->phis()) P.replaceIncomingBlockWith(i->getParent(),nb);
      if(i->getUnwindDest()==nd) report_fatal_error("symx: invoke"); }
  }
  bool retAny;
  void run(Function& f){
    F=&f; sh.clear(); phis.clear(); fname=f.getName().str(); fsite=str(fname+"|");
    std::vector<BasicBlock*> order; // RPO so that operands are visited before uses (except through phis)
    { ReversePostOrder(f,order); }
    // entry: argument shadows
    retAny=false;
    { Type* rt=f.getReturnType(); if(nleaves(rt)>0){ for(auto& BB:f) if(auto* R=dyn_cast<ReturnInst>(BB.getTerminator())) if(R->getReturnValue()&&!isa<Constant>(R->getReturnValue())) retAny=true; } }
    std::vector<Instruction*> list;
    for(auto* BB:order) for(auto& I:*BB) list.push_back(&I);
    Instruction* ip=&*f.getEntryBlock().getFirstInsertionPt();
    unsigned nl=0; bool opaq=false; for(auto& a:f.args()){ int n=nleaves(a.getType()); if(n>0) nl+=n; }
    IRBuilder<> B(ip);
    (void)opaq;
    if(nl&&nl<=60){
      Value* arr=B.CreateCall(fEntry,{&f,c32(nl),fsite});
      unsigned k=0;
      for(auto& a:f.args()){ int n=nleaves(a.getType()); Leaves l; for(int i=0;i<n;++i,++k) l.push_back(B.CreateLoad(PT,B.CreateConstInBoundsGEP1_64(PT,arr,k))); if(n>0) sh[&a]=l;
        if(a.hasByValAttr()) B.CreateCall(fClear,{&a,c64(DL.getTypeAllocSize(a.getParamByValType()))}); }
    }
    // phis first
    for(auto* I:list) if(auto* P=dyn_cast<PHINode>(I)){
      int n=nleaves(P->getType()); if(n<=0) continue;
      bool allc=true; for(auto& v:P->incoming_values()) if(!isa<Constant>(v)) allc=false; if(allc) continue;
      IRBuilder<> PB(P); SmallVector<PHINode*,2> ps; Leaves l;
      for(int i=0;i<n;++i){ auto* q=PB.CreatePHI(PT,P->getNumIncomingValues()); ps.push_back(q); l.push_back(q);} sh[P]=l; phis.push_back({P,ps});
    }
    for(auto* I:list) if(!isa<PHINode>(I)) visit(I);
    for(auto& pr:phis){ PHINode* P=pr.first;
      for(unsigned j=0;j<P->getNumIncomingValues();++j){ auto l=get(P->getIncomingValue(j)); for(unsigned i=0;i<pr.second.size();++i) pr.second[i]->addIncoming(l[i],P->getIncomingBlock(j)); } }
  }
  static void ReversePostOrder(Function& f,std::vector<BasicBlock*>& out){
    std::vector<std::pair<BasicBlock*,unsigned>> st; SmallPtrSet<BasicBlock*,32> seen; std::vector<BasicBlock*> post;
    st.push_back({&f.getEntryBlock(),0}); seen.insert(&f.getEntryBlock());
    while(!st.empty()){ auto& [b,i]=st.back(); auto* T=b->getTerminator(); if(i<T->getNumSuccessors()){ auto* s=T->getSuccessor(i++); if(seen.insert(s).second) st.push_back({s,0}); } else { post.push_back(b); st.pop_back(); } }
    out.assign(post.rbegin(),post.rend());
  }

  void runModule(){
    std::vector<Function*> fs; 
    // template instantiations stay inside the executable: the engine, z3 and other libraries must not bind to the instrumented ones
    for(auto& f:M) if(!f.isDeclaration()&&(f.hasLinkOnceLinkage()||f.hasWeakLinkage())) f.setVisibility(GlobalValue::HiddenVisibility);
    for(auto& f:M) if(!f.isDeclaration()&&!f.hasAvailableExternallyLinkage()&&!f.getName().starts_with("__symx")&&!f.getName().starts_with("symx_")&&!f.hasFnAttribute(Attribute::Naked)) fs.push_back(&f);
    std::vector<GlobalVariable*> gs;
    for(auto& g:M.globals()) if(!g.isDeclaration()&&!g.hasAvailableExternallyLinkage()&&!g.getName().starts_with("llvm.")&&!g.isThreadLocal()&&(g.getValueType()->isAggregateType())) gs.push_back(&g);
    for(auto* f:fs){ removeUnreachableBlocks_(*f); splitInvokes(*f); f->removeFnAttr(Attribute::Memory); run(*f); }
    for(auto& f:M) if(f.isDeclaration()&&!f.isIntrinsic()) f.removeFnAttr(Attribute::Memory);
    for(auto* f:fs) for(auto& I:instructions(*f)) if(auto* cb=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(cb)) cb->removeFnAttr(Attribute::Memory);
    // registration
    std::vector<Constant*> fe; for(auto* f:fs) fe.push_back(f);
    std::vector<Constant*> ge; for(auto* g:gs){ ge.push_back(g); ge.push_back(ConstantExpr::getIntToPtr(ConstantInt::get(I64,DL.getTypeAllocSize(g->getValueType())),PT)); }
    auto mk=[&](std::vector<Constant*>& v,const char* n)->Constant*{ auto* at=ArrayType::get(PT,v.size()); return new GlobalVariable(M,at,true,GlobalValue::InternalLinkage,ConstantArray::get(at,v),n); };
    Constant* ft=mk(fe,"__symx_ftab"); Constant* gt=mk(ge,"__symx_gtab");
    FunctionType* ct=FunctionType::get(VT,false); Function* ctor=Function::Create(ct,GlobalValue::InternalLinkage,"__symx_ctor",M);
    IRBuilder<> B(BasicBlock::Create(C,"e",ctor));
    FunctionCallee reg=M.getOrInsertFunction("__symx_register",FunctionType::get(VT,{PT,I64,PT,I64},false));
    B.CreateCall(reg,{ft,c64(fe.size()),gt,c64(gs.size())}); B.CreateRetVoid();
    appendToGlobalCtors(M,ctor,1);
  }
  static void removeUnreachableBlocks_(Function& f){ EliminateUnreachableBlocks(f); }
};

// the texts rendered into error messages are not part of any property: formatting a symbolic number would fork on its digits
struct QuietPass : PassInfoMixin<QuietPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&){
    for(auto& f:M) if(!f.isDeclaration()&&f.getName().starts_with("_ZN4uima12ErrorMessage8addParamI")){
      auto l=f.getLinkage(); f.deleteBody(); f.setLinkage(l); IRBuilder<> B(BasicBlock::Create(M.getContext(),"e",&f)); B.CreateRetVoid(); f.setComdat(f.getComdat()); }
    return PreservedAnalyses::none(); }
  static bool isRequired(){ return true; }
};
struct SymxPass : PassInfoMixin<SymxPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&){ Instr(M).runModule(); return PreservedAnalyses::none(); }
  static bool isRequired(){ return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"symx","1",[](PassBuilder& PB){
    PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel){ MPM.addPass(QuietPass()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel){ MPM.addPass(SymxPass()); });
    PB.registerPipelineParsingCallback([](StringRef n,ModulePassManager& MPM,ArrayRef<PassBuilder::PipelineElement>){ if(n=="symx"){MPM.addPass(SymxPass());return true;} return false; });
  }};
}
