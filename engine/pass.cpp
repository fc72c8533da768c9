#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
// vsym: LLVM pass that turns compiled code into a symbolic executor of itself.
// Every SSA value gets a shadow "expression" value (null = concrete); every
// instruction is mirrored by a call that builds the SMT term for its result.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "ops.h"
using namespace llvm;

namespace {
typedef SmallVector<Value*, 2> Leaves;

struct RT {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I1,*I8,*I32,*I64,*V; PointerType *P;
  GlobalVariable *params,*rets,*callee,*retfn,*byval,*nparams;
  DenseMap<Function*, Constant*> names;
  RT(Module &m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);V=Type::getVoidTy(C);P=PointerType::getUnqual(C);
    params=gv("vs_params",ArrayType::get(P,64));rets=gv("vs_rets",ArrayType::get(P,16));
    byval=gv("vs_byval",ArrayType::get(P,64));
    callee=gv("vs_callee",P);retfn=gv("vs_retfn",P);nparams=gv("vs_nparams",I32);
  }
  GlobalVariable*gv(const char*n,Type*T){
    if(auto*g=M.getGlobalVariable(n))return g;
    return new GlobalVariable(M,T,false,GlobalValue::ExternalLinkage,nullptr,n);
  }
  FunctionCallee fn(const char*n,Type*R,ArrayRef<Type*>A){return M.getOrInsertFunction(n,FunctionType::get(R,A,false));}
  Constant*fname(Function*F){
    auto&s=names[F]; if(s)return s;
    auto*c=ConstantDataArray::getString(C,F->getName());
    auto*g=new GlobalVariable(M,c->getType(),true,GlobalValue::PrivateLinkage,c,"vs.fn");
    return s=g;
  }
};

static bool scalarOK(Type*T){
  if(auto*I=dyn_cast<IntegerType>(T))return I->getBitWidth()<=128;
  return T->isPointerTy()||T->isFloatTy()||T->isDoubleTy();
}
static void flat(Type*T,SmallVectorImpl<Type*>&o){
  if(scalarOK(T)){o.push_back(T);return;}
  if(auto*S=dyn_cast<StructType>(T)){for(auto*E:S->elements())flat(E,o);return;}
  if(auto*A=dyn_cast<ArrayType>(T)){for(uint64_t i=0;i<A->getNumElements();i++)flat(A->getElementType(),o);return;}
  if(auto*Ve=dyn_cast<FixedVectorType>(T)){for(unsigned i=0;i<Ve->getNumElements();i++)flat(Ve->getElementType(),o);return;}
}
static bool isAgg(Type*T){return T->isStructTy()||T->isArrayTy()||T->isVectorTy();}

struct FI {
  RT&R;Function&F;DenseMap<Value*,Leaves> sh;Constant*NullE;
  std::vector<PHINode*> phis;
  FI(RT&r,Function&f):R(r),F(f){NullE=ConstantPointerNull::get(R.P);}

  unsigned nleaves(Type*T){SmallVector<Type*,4>o;flat(T,o);return o.size();}
  Leaves get(Value*V){
    auto it=sh.find(V); if(it!=sh.end())return it->second;
    Leaves l;unsigned n=nleaves(V->getType());for(unsigned i=0;i<n;i++)l.push_back(NullE);return l;
  }
  bool allNull(const Leaves&l){for(auto*v:l)if(v!=NullE)return false;return true;}
  Value*get1(Value*V){auto l=get(V);return l.empty()?NullE:l[0];}
  // concrete leaf values
  void vals(IRBuilder<>&B,Value*V,SmallVectorImpl<Value*>&o){
    Type*T=V->getType();
    if(scalarOK(T)){o.push_back(V);return;}
    if(auto*S=dyn_cast<StructType>(T)){for(unsigned i=0;i<S->getNumElements();i++)vals(B,B.CreateExtractValue(V,i),o);return;}
    if(auto*A=dyn_cast<ArrayType>(T)){for(unsigned i=0;i<A->getNumElements();i++)vals(B,B.CreateExtractValue(V,i),o);return;}
    if(auto*Ve=dyn_cast<FixedVectorType>(T)){for(unsigned i=0;i<Ve->getNumElements();i++)vals(B,B.CreateExtractElement(V,(uint64_t)i),o);return;}
  }
  Value*i64(IRBuilder<>&B,Value*V){
    Type*T=V->getType();
    if(T->isPointerTy())return B.CreatePtrToInt(V,R.I64);
    if(T->isDoubleTy())return B.CreateBitCast(V,R.I64);
    if(T->isFloatTy())return B.CreateZExt(B.CreateBitCast(V,R.I32),R.I64);
    return B.CreateZExtOrTrunc(V,R.I64);
  }
  Value*hi64(IRBuilder<>&B,Value*V){
    if(V->getType()->isIntegerTy()&&V->getType()->getIntegerBitWidth()>64)return B.CreateTrunc(B.CreateLShr(V,64),R.I64);
    return B.getInt64(0);
  }
  unsigned width(Type*T){if(T->isPointerTy()||T->isDoubleTy())return 64;if(T->isFloatTy())return 32;return T->getIntegerBitWidth();}
  Value*c32(int v){return ConstantInt::get(R.I32,v);}

  Value*bin(IRBuilder<>&B,unsigned op,Type*T,Value*e1,Value*v1,Value*e2,Value*v2){
    if(e1==NullE&&e2==NullE)return NullE;
    unsigned w=width(T);
    if(w>64)return B.CreateCall(R.fn("vs_bin128",R.P,{R.I32,R.I32,R.P,R.I64,R.I64,R.P,R.I64,R.I64}),{c32(op),c32(w),e1,i64(B,v1),hi64(B,v1),e2,i64(B,v2),hi64(B,v2)});
    return B.CreateCall(R.fn("vs_bin",R.P,{R.I32,R.I32,R.P,R.I64,R.P,R.I64}),{c32(op),c32(w),e1,i64(B,v1),e2,i64(B,v2)});
  }
  Value*un(IRBuilder<>&B,unsigned op,unsigned w,unsigned w2,Value*e){
    if(e==NullE)return NullE;
    return B.CreateCall(R.fn("vs_un",R.P,{R.I32,R.I32,R.I32,R.P}),{c32(op),c32(w),c32(w2),e});
  }
  Value*sel(IRBuilder<>&B,Type*T,Value*ec,Value*c,Value*e1,Value*v1,Value*e2,Value*v2){
    if(ec==NullE&&e1==NullE&&e2==NullE)return NullE;
    return B.CreateCall(R.fn("vs_select",R.P,{R.I32,R.P,R.I32,R.P,R.I64,R.P,R.I64}),{c32(width(T)),ec,B.CreateZExt(c,R.I32),e1,i64(B,v1),e2,i64(B,v2)});
  }
  void pin(IRBuilder<>&B,Value*e,Value*why){ if(e==NullE)return; B.CreateCall(R.fn("vs_pin",R.V,{R.P,R.P}),{e,why}); }
  void pinAll(IRBuilder<>&B,Instruction*I){
    Constant*nm=B.CreateGlobalStringPtr(std::string("op:")+I->getOpcodeName()+(isa<CallBase>(I)&&cast<CallBase>(I)->getCalledFunction()?std::string(":")+cast<CallBase>(I)->getCalledFunction()->getName().str():""));
    for(auto&o:I->operands()) for(auto*e:get(o)) pin(B,e,nm);
  }

  void loadLeaves(IRBuilder<>&B,Type*T,Value*ea,Value*addr,uint64_t off,Leaves&out,SmallVectorImpl<Value*>&lv,unsigned&k){
    if(scalarOK(T)){
      uint64_t n=R.DL.getTypeStoreSize(T);
      Value*a=B.CreatePtrToInt(addr,R.I64); if(off)a=B.CreateAdd(a,B.getInt64(off));
      out.push_back(B.CreateCall(R.fn("vs_load",R.P,{R.P,R.I64,R.I32,R.I32,R.I64,R.P}),{ea,a,c32(n),c32(width(T)),i64(B,lv[k++]),R.fname(&F)}));
      return;
    }
    if(auto*S=dyn_cast<StructType>(T)){auto*L=R.DL.getStructLayout(S);for(unsigned i=0;i<S->getNumElements();i++)loadLeaves(B,S->getElementType(i),ea,addr,off+L->getElementOffset(i),out,lv,k);return;}
    Type*E=nullptr;uint64_t n=0;
    if(auto*A=dyn_cast<ArrayType>(T)){E=A->getElementType();n=A->getNumElements();}
    if(auto*A=dyn_cast<FixedVectorType>(T)){E=A->getElementType();n=A->getNumElements();}
    if(E){uint64_t sz=T->isVectorTy()?R.DL.getTypeStoreSize(E):R.DL.getTypeAllocSize(E).getFixedValue();for(uint64_t i=0;i<n;i++)loadLeaves(B,E,ea,addr,off+i*sz,out,lv,k);}
  }
  void storeLeaves(IRBuilder<>&B,Type*T,Value*ea,Value*addr,uint64_t off,const Leaves&in,SmallVectorImpl<Value*>&lv,unsigned&k){
    if(scalarOK(T)){
      uint64_t n=R.DL.getTypeStoreSize(T);
      Value*a=B.CreatePtrToInt(addr,R.I64); if(off)a=B.CreateAdd(a,B.getInt64(off));
      B.CreateCall(R.fn("vs_store",R.V,{R.P,R.I64,R.I32,R.P,R.I64,R.P}),{ea,a,c32(n),in[k],i64(B,lv[k]),R.fname(&F)});k++;
      return;
    }
    if(auto*S=dyn_cast<StructType>(T)){auto*L=R.DL.getStructLayout(S);for(unsigned i=0;i<S->getNumElements();i++)storeLeaves(B,S->getElementType(i),ea,addr,off+L->getElementOffset(i),in,lv,k);return;}
    Type*E=nullptr;uint64_t n=0;
    if(auto*A=dyn_cast<ArrayType>(T)){E=A->getElementType();n=A->getNumElements();}
    if(auto*A=dyn_cast<FixedVectorType>(T)){E=A->getElementType();n=A->getNumElements();}
    if(E){uint64_t sz=T->isVectorTy()?R.DL.getTypeStoreSize(E):R.DL.getTypeAllocSize(E).getFixedValue();for(uint64_t i=0;i<n;i++)storeLeaves(B,E,ea,addr,off+i*sz,in,lv,k);return;}
    // unsupported (x86_fp80): clear shadow
    B.CreateCall(R.fn("vs_clear",R.V,{R.P,R.I64}),{addr,B.getInt64(R.DL.getTypeStoreSize(T))});
  }

  Value*gep(IRBuilder<>&B,GEPOperator*G){
    // single-pointer gep
    Value*base=G->getPointerOperand();Value*e=get1(base);
    bool any=e!=NullE;for(auto&i:G->indices())if(get1(i)!=NullE)any=true;
    if(!any)return NullE;
    Value*v=B.CreatePtrToInt(base,R.I64);
    int64_t cst=0;
    for(auto GTI=gep_type_begin(G),E=gep_type_end(G);GTI!=E;++GTI){
      Value*idx=GTI.getOperand();
      if(auto*ST=GTI.getStructTypeOrNull()){cst+=R.DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());continue;}
      uint64_t sz=R.DL.getTypeAllocSize(GTI.getIndexedType());
      if(auto*CI=dyn_cast<ConstantInt>(idx)){cst+=CI->getSExtValue()*sz;continue;}
      Value*iv=B.CreateSExtOrTrunc(idx,R.I64);
      e=B.CreateCall(R.fn("vs_gep",R.P,{R.P,R.I64,R.P,R.I64,R.I64,R.I32}),{e,v,get1(idx),iv,B.getInt64(sz),c32(width(idx->getType()))});
      v=B.CreateAdd(v,B.CreateMul(iv,B.getInt64(sz)));
    }
    if(cst)e=B.CreateCall(R.fn("vs_bin",R.P,{R.I32,R.I32,R.P,R.I64,R.P,R.I64}),{c32(OP_ADD),c32(64),e,v,NullE,B.getInt64(cst)});
    return e;
  }
  static int binop(unsigned o){
    switch(o){
      case Instruction::Add:return OP_ADD;case Instruction::Sub:return OP_SUB;case Instruction::Mul:return OP_MUL;
      case Instruction::UDiv:return OP_UDIV;case Instruction::SDiv:return OP_SDIV;case Instruction::URem:return OP_UREM;case Instruction::SRem:return OP_SREM;
      case Instruction::And:return OP_AND;case Instruction::Or:return OP_OR;case Instruction::Xor:return OP_XOR;
      case Instruction::Shl:return OP_SHL;case Instruction::LShr:return OP_LSHR;case Instruction::AShr:return OP_ASHR;
      case Instruction::FAdd:return OP_FADD;case Instruction::FSub:return OP_FSUB;case Instruction::FMul:return OP_FMUL;case Instruction::FDiv:return OP_FDIV;case Instruction::FRem:return OP_FREM;
    }
    return -1;
  }
  static int cmpop(CmpInst::Predicate p){
    switch(p){
      case CmpInst::ICMP_EQ:return OP_EQ;case CmpInst::ICMP_NE:return OP_NE;
      case CmpInst::ICMP_ULT:return OP_ULT;case CmpInst::ICMP_ULE:return OP_ULE;case CmpInst::ICMP_UGT:return OP_UGT;case CmpInst::ICMP_UGE:return OP_UGE;
      case CmpInst::ICMP_SLT:return OP_SLT;case CmpInst::ICMP_SLE:return OP_SLE;case CmpInst::ICMP_SGT:return OP_SGT;case CmpInst::ICMP_SGE:return OP_SGE;
      default:return OP_FCMP+(int)p; // FCMP_FALSE=0..FCMP_TRUE=15
    }
  }
  template<class FnT> void elementwise(IRBuilder<>&B,Instruction*I,FnT f){
    // binary elementwise op over leaves
    Leaves a=get(I->getOperand(0)),b=get(I->getOperand(1)),o;
    if(allNull(a)&&allNull(b)){sh[I]=get0(I);return;}
    SmallVector<Value*,4>va,vb;vals(B,I->getOperand(0),va);vals(B,I->getOperand(1),vb);
    for(unsigned i=0;i<a.size();i++)o.push_back(f(va[i]->getType(),a[i],va[i],b[i],vb[i]));
    sh[I]=o;
  }
  Leaves get0(Value*V){Leaves l;unsigned n=nleaves(V->getType());for(unsigned i=0;i<n;i++)l.push_back(NullE);return l;}
  unsigned aggOffset(Type*T,ArrayRef<unsigned>idx,Type*&sub){
    unsigned off=0;
    for(unsigned i:idx){
      if(auto*S=dyn_cast<StructType>(T)){for(unsigned k=0;k<i;k++)off+=nleaves(S->getElementType(k));T=S->getElementType(i);}
      else{auto*A=cast<ArrayType>(T);off+=i*nleaves(A->getElementType());T=A->getElementType();}
    }
    sub=T;return off;
  }

  bool intrinsic(IntrinsicInst*I){
    IRBuilder<>B(I->getNextNode());
    auto id=I->getIntrinsicID();
    auto bin2=[&](unsigned op){elementwise(B,I,[&](Type*T,Value*e1,Value*v1,Value*e2,Value*v2){return bin(B,op,T,e1,v1,e2,v2);});};
    auto un1=[&](unsigned op){
      Leaves a=get(I->getArgOperand(0)),o;SmallVector<Type*,4>ts;flat(I->getArgOperand(0)->getType(),ts);
      for(unsigned i=0;i<a.size();i++)o.push_back(un(B,op,width(ts[i]),width(ts[i]),a[i]));
      sh[I]=o;};
    switch(id){
      case Intrinsic::memcpy:case Intrinsic::memcpy_inline:case Intrinsic::memmove:{
        IRBuilder<>B2(I);
        B2.CreateCall(R.fn("vs_memcpy",R.V,{R.P,R.P,R.P,R.P,R.I64,R.P,R.P}),{I->getArgOperand(0),get1(I->getArgOperand(0)),I->getArgOperand(1),get1(I->getArgOperand(1)),i64(B2,I->getArgOperand(2)),get1(I->getArgOperand(2)),R.fname(&F)});
        return true;}
      case Intrinsic::memset:case Intrinsic::memset_inline:{
        IRBuilder<>B2(I);
        B2.CreateCall(R.fn("vs_memset",R.V,{R.P,R.P,R.I32,R.P,R.I64,R.P,R.P}),{I->getArgOperand(0),get1(I->getArgOperand(0)),B2.CreateZExt(I->getArgOperand(1),R.I32),get1(I->getArgOperand(1)),i64(B2,I->getArgOperand(2)),get1(I->getArgOperand(2)),R.fname(&F)});
        return true;}
      case Intrinsic::umin:bin2(OP_UMIN);return true;
      case Intrinsic::umax:bin2(OP_UMAX);return true;
      case Intrinsic::smin:bin2(OP_SMIN);return true;
      case Intrinsic::smax:bin2(OP_SMAX);return true;
      case Intrinsic::usub_sat:bin2(OP_USUBSAT);return true;
      case Intrinsic::uadd_sat:bin2(OP_UADDSAT);return true;
      case Intrinsic::minnum:bin2(OP_FMIN);return true;
      case Intrinsic::maxnum:bin2(OP_FMAX);return true;
      case Intrinsic::copysign:bin2(OP_FCOPYSIGN);return true;
      case Intrinsic::pow:bin2(OP_POW);return true;
      case Intrinsic::abs:un1(OP_ABS);return true;
      case Intrinsic::bswap:un1(OP_BSWAP);return true;
      case Intrinsic::ctpop:un1(OP_CTPOP);return true;
      case Intrinsic::ctlz:un1(OP_CTLZ);return true;
      case Intrinsic::cttz:un1(OP_CTTZ);return true;
      case Intrinsic::bitreverse:un1(OP_BITREV);return true;
      case Intrinsic::fabs:un1(OP_FABS);return true;
      case Intrinsic::sqrt:un1(OP_FSQRT);return true;
      case Intrinsic::floor:un1(OP_FFLOOR);return true;
      case Intrinsic::ceil:un1(OP_FCEIL);return true;
      case Intrinsic::trunc:un1(OP_FTRUNC);return true;
      case Intrinsic::rint:case Intrinsic::nearbyint:un1(OP_FRINT);return true;
      case Intrinsic::round:un1(OP_FROUND);return true;
      case Intrinsic::log:un1(OP_LOG);return true;
      case Intrinsic::exp:un1(OP_EXP);return true;
      case Intrinsic::log2:un1(OP_LOG2);return true;
      case Intrinsic::log10:un1(OP_LOG10);return true;
      case Intrinsic::exp2:un1(OP_EXP2);return true;
      case Intrinsic::expect:case Intrinsic::expect_with_probability:case Intrinsic::annotation:case Intrinsic::launder_invariant_group:case Intrinsic::strip_invariant_group:case Intrinsic::ssa_copy:
        sh[I]=get(I->getArgOperand(0));return true;
      case Intrinsic::is_constant: case Intrinsic::objectsize: sh[I]=get0(I);return true;
      case Intrinsic::fmuladd: case Intrinsic::fma:{
        Type*T=I->getType();if(!scalarOK(T))break;
        Value*a=I->getArgOperand(0),*b=I->getArgOperand(1),*c=I->getArgOperand(2);
        if(id==Intrinsic::fma)break;
        Value*m=bin(B,OP_FMUL,T,get1(a),a,get1(b),b);
        sh[I]={bin(B,OP_FADD,T,m,B.CreateFMul(a,b),get1(c),c)};return true;}
      case Intrinsic::fshl:case Intrinsic::fshr:{
        Type*T=I->getType();if(!scalarOK(T)||width(T)>64)break;
        Value*a=I->getArgOperand(0),*b=I->getArgOperand(1),*c=I->getArgOperand(2);
        if(get1(a)==NullE&&get1(b)==NullE&&get1(c)==NullE){sh[I]=get0(I);return true;}
        sh[I]={B.CreateCall(R.fn("vs_fsh",R.P,{R.I32,R.I32,R.P,R.I64,R.P,R.I64,R.P,R.I64}),{c32(id==Intrinsic::fshl?1:0),c32(width(T)),get1(a),i64(B,a),get1(b),i64(B,b),get1(c),i64(B,c)})};
        return true;}
      case Intrinsic::uadd_with_overflow:case Intrinsic::sadd_with_overflow:case Intrinsic::usub_with_overflow:case Intrinsic::ssub_with_overflow:case Intrinsic::umul_with_overflow:case Intrinsic::smul_with_overflow:{
        Value*a=I->getArgOperand(0),*b=I->getArgOperand(1);
        if(get1(a)==NullE&&get1(b)==NullE){sh[I]=get0(I);return true;}
        if(width(a->getType())>64)break;
        int op=0,ov=0;
        switch(id){case Intrinsic::uadd_with_overflow:op=OP_ADD;ov=OP_UADDO;break;case Intrinsic::sadd_with_overflow:op=OP_ADD;ov=OP_SADDO;break;
          case Intrinsic::usub_with_overflow:op=OP_SUB;ov=OP_USUBO;break;case Intrinsic::ssub_with_overflow:op=OP_SUB;ov=OP_SSUBO;break;
          case Intrinsic::umul_with_overflow:op=OP_MUL;ov=OP_UMULO;break;default:op=OP_MUL;ov=OP_SMULO;}
        Leaves o;o.push_back(bin(B,op,a->getType(),get1(a),a,get1(b),b));o.push_back(bin(B,ov,a->getType(),get1(a),a,get1(b),b));
        sh[I]=o;return true;}
      case Intrinsic::lifetime_start:{
        IRBuilder<>B2(I);
        auto*sz=cast<ConstantInt>(I->getArgOperand(0));
        if(sz->getSExtValue()>0)B2.CreateCall(R.fn("vs_clear",R.V,{R.P,R.I64}),{I->getArgOperand(1),sz});
        return true;}
      case Intrinsic::lifetime_end:case Intrinsic::dbg_declare:case Intrinsic::dbg_value:case Intrinsic::dbg_label:case Intrinsic::assume:case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::invariant_start:case Intrinsic::invariant_end:case Intrinsic::donothing:case Intrinsic::trap:case Intrinsic::eh_typeid_for:case Intrinsic::stacksave:case Intrinsic::stackrestore:
      case Intrinsic::vastart:case Intrinsic::vaend:case Intrinsic::vacopy:case Intrinsic::prefetch:case Intrinsic::var_annotation:case Intrinsic::sideeffect:case Intrinsic::threadlocal_address:
        sh[I]=get0(I);return true;
      default:break;
    }
    IRBuilder<>B3(I);pinAll(B3,I);sh[I]=get0(I);return true;
  }

  void call(CallBase*C){
    if(auto*I=dyn_cast<IntrinsicInst>(C)){intrinsic(I);return;}
    IRBuilder<>B(C);
    if(C->isInlineAsm()){pinAll(B,C);sh[C]=get0(C);return;}
    Function*T=C->getCalledFunction();
    StringRef nm=T?T->getName():"";
    // libm by name
    static const std::map<std::string,int> m1={{"log",OP_LOG},{"exp",OP_EXP},{"log2",OP_LOG2},{"log10",OP_LOG10},{"exp2",OP_EXP2},{"log1p",OP_LOG1P},{"expm1",OP_EXPM1},{"sqrt",OP_FSQRT},{"floor",OP_FFLOOR},{"ceil",OP_FCEIL},{"fabs",OP_FABS},{"lgamma",OP_LGAMMA},{"tgamma",OP_TGAMMA},{"sin",OP_SIN},{"cos",OP_COS},{"tanh",OP_TANH},
      {"logf",OP_LOG},{"expf",OP_EXP},{"log2f",OP_LOG2},{"log10f",OP_LOG10},{"exp2f",OP_EXP2},{"log1pf",OP_LOG1P},{"expm1f",OP_EXPM1},{"sqrtf",OP_FSQRT},{"floorf",OP_FFLOOR},{"ceilf",OP_FCEIL},{"fabsf",OP_FABS},
      {"round",OP_FROUND},{"trunc",OP_FTRUNC},{"rint",OP_FRINT},{"__log_finite",OP_LOG},{"__exp_finite",OP_EXP}};
    static const std::map<std::string,int> m2={{"pow",OP_POW},{"powf",OP_POW},{"fmin",OP_FMIN},{"fmax",OP_FMAX},{"fmod",OP_FREM},{"atan2",OP_ATAN2}};
    if(T&&T->isDeclaration()){
      auto it=m1.find(nm.str());
      if(it!=m1.end()&&C->arg_size()==1&&scalarOK(C->getType())&&C->getType()->isFloatingPointTy()){
        B.SetInsertPoint(afterCall(C));
        unsigned w=width(C->getType());sh[C]={un(B,it->second,w,w,get1(C->getArgOperand(0)))};return;}
      it=m2.find(nm.str());
      if(it!=m2.end()&&C->arg_size()==2&&scalarOK(C->getType())&&C->getType()->isFloatingPointTy()){
        B.SetInsertPoint(afterCall(C));
        Value*a=C->getArgOperand(0),*b=C->getArgOperand(1);
        sh[C]={bin(B,it->second,C->getType(),get1(a),a,get1(b),b)};return;}
    }
    // redirect libc string functions to instrumented versions
    static const std::set<std::string> redir={"memcmp","bcmp","strlen","strcmp","strncmp","strchr","memchr","strrchr","strcpy","strncpy","strcat","strstr","strpbrk","strspn","strcspn","tolower","toupper","isspace","isdigit","isalpha","isalnum","isupper","islower","ispunct","isxdigit","strtol","strtoul","strtoll","strtoull","atoi","atol","memrchr","strnlen","strcasecmp","strtod","strtof","atof","__isoc23_strtol","__isoc23_strtoul","__isoc23_strtoll","__isoc23_strtoull","_ZSt11_Hash_bytesPKvmm","memmem","isprint","rawmemchr","strsep","strtok_r"};
    if(T&&T->isDeclaration()&&redir.count(nm.str())){
      std::string n=nm.str(); if(n.rfind("__isoc23_",0)==0)n=n.substr(9); if(n=="_ZSt11_Hash_bytesPKvmm")n="Hash_bytes";
      auto fc=R.M.getOrInsertFunction("vsl_"+n,C->getFunctionType());
      C->setCalledFunction(fc);T=dyn_cast<Function>(fc.getCallee());
    }
    if(T&&T->isDeclaration()&&(nm=="exit"||nm=="_exit")){
      C->setCalledFunction(R.fn("vs_exit",R.V,{R.I32}));T=C->getCalledFunction();}
    if(nm=="memcpy"||nm=="memmove"||nm=="mempcpy"){
      B.CreateCall(R.fn("vs_memcpy",R.V,{R.P,R.P,R.P,R.P,R.I64,R.P,R.P}),{C->getArgOperand(0),get1(C->getArgOperand(0)),C->getArgOperand(1),get1(C->getArgOperand(1)),i64(B,C->getArgOperand(2)),get1(C->getArgOperand(2)),R.fname(&F)});
      sh[C]=get0(C);return;}
    if(nm=="memset"){
      Value*b=C->getArgOperand(1);
      B.CreateCall(R.fn("vs_memset",R.V,{R.P,R.P,R.I32,R.P,R.I64,R.P,R.P}),{C->getArgOperand(0),get1(C->getArgOperand(0)),b,get1(b),i64(B,C->getArgOperand(2)),get1(C->getArgOperand(2)),R.fname(&F)});
      sh[C]=get0(C);return;}
    bool must=isa<CallInst>(C)&&cast<CallInst>(C)->isMustTailCall();
    // clear attributes that would let codegen reorder
    C->removeFnAttr(Attribute::Memory);
    Value*fp=C->getCalledOperand();
    // symbolic function pointer: pin
    if(!isa<Constant>(fp))pin(B,get1(fp),R.fname(&F));
    unsigned k=0;
    for(unsigned i=0;i<C->arg_size();i++){
      Value*a=C->getArgOperand(i);
      if(C->isByValArgument(i)){ if(k<64){B.CreateStore(NullE,slot(B,R.params,k));B.CreateStore(a,slot(B,R.byval,k));k++;} continue;}
      for(auto*e:get(a)){ if(k<64)B.CreateStore(e,slot(B,R.params,k)); k++; }
    }
    if(k>64)k=64;
    B.CreateStore(fp,R.callee);B.CreateStore(c32(k),R.nparams);B.CreateStore(NullE,R.retfn);
    bool known=T&&!T->isDeclaration();
    if(!known){
      Constant*cn=T?R.fname(T):(Constant*)NullE;
      // gather concrete pointer args for leak check
      unsigned np=0;Value*ps[3]={NullE,NullE,NullE};
      for(unsigned i=0;i<C->arg_size()&&np<3;i++)if(C->getArgOperand(i)->getType()->isPointerTy())ps[np++]=C->getArgOperand(i);
      if(!(nm.starts_with("vs_")||nm.starts_with("vsl_")))
      B.CreateCall(R.fn("vs_precall",R.V,{R.P,R.P,R.P,R.P,R.P}),{fp,cn,ps[0],ps[1],ps[2]});
    }
    if(must){sh[C]=get0(C);return;}
    Leaves o;unsigned n=nleaves(C->getType());
    Instruction*ip=n?afterCall(C):nullptr;
    if(!n){sh[C]=o;return;}
    IRBuilder<>A(ip);
    Value*rp=A.CreateCall(R.fn("vs_getret",R.P,{R.P}),{fp});
    for(unsigned i=0;i<n;i++){ if(i<16)o.push_back(A.CreateLoad(R.P,A.CreateConstGEP2_32(ArrayType::get(R.P,16),rp,0,i))); else o.push_back(NullE);}
    sh[C]=o;
  }
  Instruction*afterCall(CallBase*C){
    if(auto*Inv=dyn_cast<InvokeInst>(C)){
      BasicBlock*N=Inv->getNormalDest();
      return &*N->getFirstInsertionPt(); // edges were split beforehand
    }
    return C->getNextNode();
  }
  Value*slot(IRBuilder<>&B,GlobalVariable*g,unsigned i){return B.CreateConstInBoundsGEP2_32(g->getValueType(),g,0,i);}

  void visit(Instruction*I){
    if(auto*C=dyn_cast<CallBase>(I)){call(C);return;}
    if(isa<PHINode>(I))return;
    if(auto*S=dyn_cast<StoreInst>(I)){
      IRBuilder<>B(I);SmallVector<Value*,4>lv;vals(B,S->getValueOperand(),lv);unsigned k=0;
      storeLeaves(B,S->getValueOperand()->getType(),get1(S->getPointerOperand()),S->getPointerOperand(),0,get(S->getValueOperand()),lv,k);return;}
    if(auto*Rt=dyn_cast<ReturnInst>(I)){
      // before a musttail'd return nothing can be inserted
      if(Rt->getPrevNode()&&isa<CallInst>(Rt->getPrevNode())&&cast<CallInst>(Rt->getPrevNode())->isMustTailCall())return;
      IRBuilder<>B(I);
      if(Value*v=Rt->getReturnValue()){auto l=get(v);for(unsigned i=0;i<l.size()&&i<16;i++)B.CreateStore(l[i],slot(B,R.rets,i));}
      B.CreateStore(&F,R.retfn);return;}
    if(auto*Br=dyn_cast<BranchInst>(I)){
      if(Br->isConditional()){Value*e=get1(Br->getCondition());
        if(e!=NullE){IRBuilder<>B(I);B.CreateCall(R.fn("vs_branch",R.V,{R.P,R.I32,R.P}),{e,B.CreateZExt(Br->getCondition(),R.I32),R.fname(&F)});}}
      return;}
    if(auto*Sw=dyn_cast<SwitchInst>(I)){
      Value*e=get1(Sw->getCondition());if(e==NullE||Sw->getNumCases()==0)return;
      IRBuilder<>B(I);std::vector<uint64_t>cs;for(auto&c:Sw->cases())cs.push_back(c.getCaseValue()->getValue().getLimitedValue());
      // also the grouping (same successor) is irrelevant for soundness
      auto*arr=ConstantDataArray::get(R.C,cs);
      auto*g=new GlobalVariable(R.M,arr->getType(),true,GlobalValue::PrivateLinkage,arr,"vs.sw");
      // successor ids, to merge cases that go to the same block
      std::vector<uint32_t>ss;DenseMap<BasicBlock*,uint32_t>sm;sm[Sw->getDefaultDest()]=0;
      for(auto&c:Sw->cases()){auto it=sm.find(c.getCaseSuccessor());uint32_t id;if(it==sm.end()){id=sm.size();sm[c.getCaseSuccessor()]=id;}else id=it->second;
        // blocks with phis distinguish by incoming edge only via same pred block, so merging is exact
        ss.push_back(id);}
      auto*arr2=ConstantDataArray::get(R.C,ss);
      auto*g2=new GlobalVariable(R.M,arr2->getType(),true,GlobalValue::PrivateLinkage,arr2,"vs.sws");
      B.CreateCall(R.fn("vs_switch",R.V,{R.P,R.I32,R.I64,R.I32,R.P,R.P,R.P}),{e,c32(width(Sw->getCondition()->getType())),i64(B,Sw->getCondition()),c32(cs.size()),g,g2,R.fname(&F)});
      return;}
    if(isa<LandingPadInst>(I)){sh[I]=get0(I);return;}
    if(I->isTerminator()){ if(isa<IndirectBrInst>(I)){IRBuilder<>B(I);pinAll(B,I);} return;}
    if(auto*A=dyn_cast<AllocaInst>(I)){
      IRBuilder<>B(I->getNextNode());
      Value*sz=B.getInt64(R.DL.getTypeAllocSize(A->getAllocatedType()));
      if(A->isArrayAllocation()){IRBuilder<>B0(I);pin(B0,get1(A->getArraySize()),R.fname(&F));sz=B.CreateMul(sz,B.CreateZExtOrTrunc(A->getArraySize(),R.I64));}
      // insert after the group of allocas
      Instruction*ip=I->getNextNode();
      if(!A->isArrayAllocation())while(isa<AllocaInst>(ip))ip=ip->getNextNode();
      IRBuilder<>B2(ip);
      B2.CreateCall(R.fn("vs_clear",R.V,{R.P,R.I64}),{I,sz});sh[I]=get0(I);return;}
    IRBuilder<>B(I->getNextNode());
    if(auto*L=dyn_cast<LoadInst>(I)){
      Leaves o;SmallVector<Value*,4>lv;vals(B,I,lv);unsigned k=0;
      loadLeaves(B,I->getType(),get1(L->getPointerOperand()),L->getPointerOperand(),0,o,lv,k);sh[I]=o;return;}
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){
      if(!I->getType()->isPointerTy()){pinAll(B,I);sh[I]=get0(I);return;}
      sh[I]={gep(B,cast<GEPOperator>(G))};return;}
    if(isa<BinaryOperator>(I)){
      if(nleaves(I->getType())==0){pinAll(B,I);sh[I]=get0(I);return;}
      int op=binop(I->getOpcode());
      elementwise(B,I,[&](Type*T,Value*e1,Value*v1,Value*e2,Value*v2){return bin(B,op,T,e1,v1,e2,v2);});return;}
    if(auto*Cm=dyn_cast<CmpInst>(I)){
      if(nleaves(I->getOperand(0)->getType())==0){sh[I]=get0(I);return;}
      int op=cmpop(Cm->getPredicate());
      elementwise(B,I,[&](Type*T,Value*e1,Value*v1,Value*e2,Value*v2){return bin(B,op,T,e1,v1,e2,v2);});return;}
    if(isa<UnaryOperator>(I)||isa<FreezeInst>(I)){
      if(isa<FreezeInst>(I)){sh[I]=get(I->getOperand(0));return;}
      Leaves a=get(I->getOperand(0)),o;SmallVector<Type*,4>ts;flat(I->getType(),ts);
      for(unsigned i=0;i<a.size();i++)o.push_back(un(B,OP_FNEG,width(ts[i]),width(ts[i]),a[i]));sh[I]=o;return;}
    if(auto*Ca=dyn_cast<CastInst>(I)){
      SmallVector<Type*,4>f,t;flat(Ca->getSrcTy(),f);flat(Ca->getDestTy(),t);
      Leaves a=get(I->getOperand(0)),o;
      if(allNull(a)&&f.size()){sh[I]=get0(I);return;}
      if(f.size()!=t.size()||f.empty()){ pinAll(B,I); sh[I]=get0(I);return;}
      int op;
      switch(Ca->getOpcode()){
        case Instruction::Trunc:op=OP_TRUNC;break;case Instruction::ZExt:op=OP_ZEXT;break;case Instruction::SExt:op=OP_SEXT;break;
        case Instruction::FPTrunc:case Instruction::FPExt:op=OP_FPCONV;break;
        case Instruction::FPToSI:op=OP_FPTOSI;break;case Instruction::FPToUI:op=OP_FPTOUI;break;
        case Instruction::SIToFP:op=OP_SITOFP;break;case Instruction::UIToFP:op=OP_UITOFP;break;
        case Instruction::PtrToInt:case Instruction::IntToPtr:op=OP_ZEXTTRUNC;break;
        case Instruction::BitCast:op=OP_BITCAST;break;default:op=-1;}
      if(op<0){pinAll(B,I);sh[I]=get0(I);return;}
      for(unsigned i=0;i<a.size();i++)o.push_back(un(B,op,width(f[i]),width(t[i]),a[i]));
      sh[I]=o;return;}
    if(auto*S=dyn_cast<SelectInst>(I)){
      SmallVector<Type*,4>ts;flat(I->getType(),ts);
      if(ts.empty()||(ts.size()&&width(ts[0])>64)){pinAll(B,I);sh[I]=get0(I);return;}
      Leaves c=get(S->getCondition()),a=get(S->getTrueValue()),b=get(S->getFalseValue()),o;
      if(allNull(c)&&allNull(a)&&allNull(b)){sh[I]=get0(I);return;}
      SmallVector<Value*,4>vc,va,vb;vals(B,S->getCondition(),vc);vals(B,S->getTrueValue(),va);vals(B,S->getFalseValue(),vb);
      for(unsigned i=0;i<ts.size();i++){unsigned ci=vc.size()==1?0:i;o.push_back(sel(B,ts[i],c[ci],vc[ci],a[i],va[i],b[i],vb[i]));}
      sh[I]=o;return;}
    if(auto*E=dyn_cast<ExtractValueInst>(I)){
      Type*sub;unsigned off=aggOffset(E->getAggregateOperand()->getType(),E->getIndices(),sub);
      Leaves a=get(E->getAggregateOperand()),o;unsigned n=nleaves(sub);for(unsigned i=0;i<n;i++)o.push_back(a[off+i]);sh[I]=o;return;}
    if(auto*E=dyn_cast<InsertValueInst>(I)){
      Type*sub;unsigned off=aggOffset(E->getAggregateOperand()->getType(),E->getIndices(),sub);
      Leaves a=get(E->getAggregateOperand()),b=get(E->getInsertedValueOperand());
      for(unsigned i=0;i<b.size();i++)a[off+i]=b[i];sh[I]=a;return;}
    if(auto*E=dyn_cast<ExtractElementInst>(I)){
      Leaves a=get(E->getVectorOperand());
      if(auto*CI=dyn_cast<ConstantInt>(E->getIndexOperand())){ if(CI->getZExtValue()<a.size())sh[I]={a[CI->getZExtValue()]};else sh[I]=get0(I);}
      else{pinAll(B,I);sh[I]=get0(I);}return;}
    if(auto*E=dyn_cast<InsertElementInst>(I)){
      Leaves a=get(E->getOperand(0));auto*CI=dyn_cast<ConstantInt>(E->getOperand(2));
      if(CI&&CI->getZExtValue()<a.size()){a[CI->getZExtValue()]=get1(E->getOperand(1));sh[I]=a;}
      else{pinAll(B,I);sh[I]=get0(I);}return;}
    if(auto*E=dyn_cast<ShuffleVectorInst>(I)){
      Leaves a=get(E->getOperand(0)),b=get(E->getOperand(1)),o;
      for(int m:E->getShuffleMask()){ if(m<0)o.push_back(NullE);else if((unsigned)m<a.size())o.push_back(a[m]);else o.push_back(b[m-a.size()]);}
      sh[I]=o;return;}
    if(auto*A=dyn_cast<AtomicRMWInst>(I)){
      IRBuilder<>B0(I);pin(B0,get1(A->getPointerOperand()),R.fname(&F));pin(B0,get1(A->getValOperand()),R.fname(&F));
      B0.CreateCall(R.fn("vs_atomic",R.V,{R.P,R.I64}),{A->getPointerOperand(),B0.getInt64(R.DL.getTypeStoreSize(A->getType()))});sh[I]=get0(I);return;}
    if(auto*A=dyn_cast<AtomicCmpXchgInst>(I)){
      IRBuilder<>B0(I);pin(B0,get1(A->getPointerOperand()),R.fname(&F));pin(B0,get1(A->getCompareOperand()),R.fname(&F));pin(B0,get1(A->getNewValOperand()),R.fname(&F));
      B0.CreateCall(R.fn("vs_atomic",R.V,{R.P,R.I64}),{A->getPointerOperand(),B0.getInt64(R.DL.getTypeStoreSize(A->getNewValOperand()->getType()))});sh[I]=get0(I);return;}
    if(isa<FenceInst>(I))return;
    pinAll(B,I);sh[I]=get0(I);
  }

  void run(){
    EliminateUnreachableBlocks(F);
    // make every invoke's normal destination have a single predecessor
    {SmallVector<InvokeInst*,8>iv;for(auto&BB:F)if(auto*Inv=dyn_cast<InvokeInst>(BB.getTerminator()))iv.push_back(Inv);
     for(auto*Inv:iv)if(!Inv->getNormalDest()->getSinglePredecessor()||isa<PHINode>(Inv->getNormalDest()->front())){
       BasicBlock*N=Inv->getNormalDest();
       BasicBlock*M=BasicBlock::Create(F.getContext(),"vs.inv",&F,N);BranchInst::Create(N,M);
       for(auto&I:*N){auto*P=dyn_cast<PHINode>(&I);if(!P)break;
         int ix=P->getBasicBlockIndex(Inv->getParent());if(ix>=0)P->setIncomingBlock(ix,M);}
       Inv->setNormalDest(M);
     }}
    std::vector<Instruction*>order;
    ReversePostOrderTraversal<Function*>RPO(&F);
    for(BasicBlock*BB:RPO)for(auto&I:*BB)order.push_back(&I);
    // entry
    {
      IRBuilder<>B(&*F.getEntryBlock().getFirstInsertionPt());
      // skip allocas so they stay static
      BasicBlock::iterator it=F.getEntryBlock().begin();while(isa<AllocaInst>(&*it))++it;
      B.SetInsertPoint(&*it);
      Value*pp=B.CreateCall(R.fn("vs_enter",R.P,{R.P,R.P}),{&F,R.fname(&F)});
      unsigned k=0;
      for(auto&A:F.args()){
        if(A.hasByValAttr()){
          if(k<64){Value*src=B.CreateLoad(R.P,slot(B,R.byval,k));
            B.CreateCall(R.fn("vs_byvalcopy",R.V,{R.P,R.P,R.I64,R.P}),{&A,src,B.getInt64(R.DL.getTypeAllocSize(A.getParamByValType())),pp});}
          k++;sh[&A]=get0(&A);continue;}
        Leaves l;unsigned n=nleaves(A.getType());
        for(unsigned i=0;i<n;i++,k++){ if(k<64)l.push_back(B.CreateLoad(R.P,B.CreateConstInBoundsGEP2_32(ArrayType::get(R.P,64),pp,0,k)));else l.push_back(NullE);}
        sh[&A]=l;
      }
    }
    // phis
    for(auto*I:order)if(auto*P=dyn_cast<PHINode>(I)){
      Leaves l;unsigned n=nleaves(P->getType());
      for(unsigned i=0;i<n;i++)l.push_back(PHINode::Create(R.P,P->getNumIncomingValues(),"",P));
      sh[P]=l;phis.push_back(P);
    }
    for(auto*I:order)visit(I);
    for(auto*P:phis){
      auto l=sh[P];
      for(unsigned k=0;k<P->getNumIncomingValues();k++){
        auto v=get(P->getIncomingValue(k));
        for(unsigned i=0;i<l.size();i++)cast<PHINode>(l[i])->addIncoming(v[i],P->getIncomingBlock(k));
      }
    }
    F.removeFnAttr(Attribute::Memory);F.removeFnAttr(Attribute::Speculatable);F.removeFnAttr(Attribute::WillReturn);F.removeFnAttr(Attribute::NoRecurse);
    F.removeFnAttr(Attribute::NoSync);F.removeFnAttr(Attribute::NoFree);
    for(auto&A:F.args()){A.removeAttr(Attribute::ReadOnly);A.removeAttr(Attribute::ReadNone);A.removeAttr(Attribute::WriteOnly);}
  }
  // helper declared here to keep RT small
};
} // namespace

// name constant for a callee (lives in RT through FI)
namespace { }

struct VsymPass : PassInfoMixin<VsymPass> {
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    if(M.getNamedMetadata("vs.done"))return PreservedAnalyses::all();
    M.getOrInsertNamedMetadata("vs.done");
    RT R(M);
    std::vector<Function*>fs;
    for(auto&F:M)if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()&&(!F.getName().starts_with("vs_")||F.getName()=="vs_harness"||F.getName()=="vs_setup")&&!F.hasFnAttribute("vs-noinstr")&&F.getSection()!="vs_noinstr"){
      bool ctor=F.getName().starts_with("_GLOBAL__sub_I");(void)ctor;
      fs.push_back(&F);}
    for(auto*F:fs){FI f(R,*F);f.run();}
    // registration of instrumented functions
    auto*ST=StructType::get(R.C,{R.P,R.P});std::vector<Constant*>es;
    // (a local function of a comdat group may be discarded by the linker: not referenced from outside its group)
    for(auto*F:fs)if(!(F->hasLocalLinkage()&&(F->hasComdat()||F->getSection()==".text.startup")))es.push_back(ConstantStruct::get(ST,{F,R.fname(F)}));
    if(!es.empty()){
      auto*AT=ArrayType::get(ST,es.size());
      auto*g=new GlobalVariable(M,AT,true,GlobalValue::PrivateLinkage,ConstantArray::get(AT,es),"vs.reg");
      auto*ctor=Function::Create(FunctionType::get(R.V,false),GlobalValue::InternalLinkage,"vs_register_ctor",&M);
      auto*BB=BasicBlock::Create(R.C,"",ctor);IRBuilder<>B(BB);
      B.CreateCall(R.fn("vs_register",R.V,{R.P,R.I64}),{g,B.getInt64(es.size())});B.CreateRetVoid();
      appendToGlobalCtors(M,ctor,0);
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};

PreservedAnalyses vsymRun(Module&M,ModuleAnalysisManager&A){return VsymPass().run(M,A);}
