// LLVM 18 pass plugin: rewrites every double-precision floating-point operation of a translation unit into a call to the
// symbolic runtime (engine/runtime.cpp).  A symbolic double is an IEEE signalling NaN whose payload is a term id, so it
// travels through memory, registers, containers and uninstrumented code unchanged; what has to be intercepted is only
// arithmetic, comparison, conversion and bit inspection.
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/ADT/StringMap.h"
#include <set>
using namespace llvm;

namespace
{
bool hasDoubleVec(Type* t)
{
  auto* v = dyn_cast<VectorType>(t);
  return v != nullptr && v->getElementType()->isFloatingPointTy();
}

struct SymPass : PassInfoMixin<SymPass>
{
  Module* M = nullptr;
  Type *D = nullptr, *I1 = nullptr, *I32 = nullptr, *I64 = nullptr, *V = nullptr, *P = nullptr;

  FunctionCallee fn(StringRef name, Type* ret, ArrayRef<Type*> args)
  {
    FunctionCallee c = M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
    if (auto* f = dyn_cast<Function>(c.getCallee()))
      f->addFnAttr(Attribute::NoUnwind);
    return c;
  }

  // libm / intrinsic name -> runtime function and its arity (double arguments, double result)
  static int knownMath(StringRef n, std::string& out)
  {
    static const std::pair<const char*, int> table[] = {
      { "sqrt", 1 },  { "fabs", 1 },  { "floor", 1 }, { "ceil", 1 },      { "trunc", 1 }, { "round", 1 },
      { "rint", 1 },  { "nearbyint", 1 }, { "sin", 1 }, { "cos", 1 },     { "tan", 1 },   { "asin", 1 },
      { "acos", 1 },  { "atan", 1 },  { "exp", 1 },   { "log", 1 },       { "exp2", 1 },  { "log2", 1 },
      { "log10", 1 }, { "cbrt", 1 },  { "fmin", 2 },  { "fmax", 2 },      { "pow", 2 },   { "fmod", 2 },
      { "atan2", 2 }, { "hypot", 2 }, { "copysign", 2 }, { "fma", 3 }, { "sinh", 1 }, { "cosh", 1 }, { "tanh", 1 },
    };
    for (const auto& e : table)
      if (n == e.first)
      {
        out = std::string("__sym_") + e.first;
        return e.second;
      }
    return 0;
  }

  void runOn(Function& F)
  {
    std::vector<Instruction*> work;
    for (auto& BB : F)
      for (auto& I : BB)
        work.push_back(&I);
    std::vector<Instruction*> dead;
    std::set<Instruction*> gone;

    for (Instruction* I : work)
    {
      if (gone.count(I) != 0)
        continue;
      for (Use& u : I->operands())
        if (hasDoubleVec(u->getType()) && (isa<BinaryOperator>(I) || isa<CmpInst>(I) || isa<UnaryOperator>(I) || isa<CastInst>(I)))
          report_fatal_error(Twine("symbolic pass: vector floating-point operation in ") + F.getName());
      IRBuilder<> B(I);
      if (auto* bo = dyn_cast<BinaryOperator>(I))
      {
        if (bo->getType()->isDoubleTy())
        {
          const char* name = nullptr;
          switch (bo->getOpcode())
          {
            case Instruction::FAdd: name = "__sym_fadd"; break;
            case Instruction::FSub: name = "__sym_fsub"; break;
            case Instruction::FMul: name = "__sym_fmul"; break;
            case Instruction::FDiv: name = "__sym_fdiv"; break;
            case Instruction::FRem: name = "__sym_fmod"; break;
            default: break;
          }
          if (name != nullptr)
          {
            Value* r = B.CreateCall(fn(name, D, { D, D }), { bo->getOperand(0), bo->getOperand(1) });
            bo->replaceAllUsesWith(r);
            dead.push_back(bo);
          }
        }
        else
          guardInt(I);
      }
      else if (auto* uo = dyn_cast<UnaryOperator>(I))
      {
        if (uo->getOpcode() == Instruction::FNeg && uo->getType()->isDoubleTy())
        {
          Value* r = B.CreateCall(fn("__sym_fneg", D, { D }), { uo->getOperand(0) });
          uo->replaceAllUsesWith(r);
          dead.push_back(uo);
        }
      }
      else if (auto* fc = dyn_cast<FCmpInst>(I))
      {
        if (!fc->getOperand(0)->getType()->isDoubleTy())
          continue;
        Value* pred = ConstantInt::get(I32, fc->getPredicate());
        bool allSelect = !fc->user_empty();
        for (User* u : fc->users())
        {
          auto* s = dyn_cast<SelectInst>(u);
          if (s == nullptr || s->getCondition() != fc || !s->getType()->isDoubleTy() || s->getTrueValue() == fc)
            allSelect = false;
        }
        if (allSelect)
        {
          std::vector<SelectInst*> sel;
          for (User* u : fc->users())
            sel.push_back(cast<SelectInst>(u));
          for (SelectInst* s : sel)
          {
            if (gone.count(s) != 0)
              continue;
            IRBuilder<> BS(s);
            Value* r = BS.CreateCall(fn("__sym_fselect", D, { I32, D, D, D, D }),
                                     { pred, fc->getOperand(0), fc->getOperand(1), s->getTrueValue(), s->getFalseValue() });
            s->replaceAllUsesWith(r);
            dead.push_back(s);
            gone.insert(s);
          }
          dead.push_back(fc);
        }
        else
        {
          Value* r = B.CreateCall(fn("__sym_fcmp", I32, { I32, D, D }), { pred, fc->getOperand(0), fc->getOperand(1) });
          r = B.CreateTrunc(r, I1);
          fc->replaceAllUsesWith(r);
          dead.push_back(fc);
        }
      }
      else if (isa<ICmpInst>(I))
        guardInt(I);
      else if (auto* ci = dyn_cast<CastInst>(I))
      {
        Type* src = ci->getSrcTy();
        if (src->isDoubleTy())
        {
          if (isa<FPToSIInst>(ci) || isa<FPToUIInst>(ci))
          {
            Value* v = B.CreateCall(fn("__sym_concretize_trunc", D, { D }), { ci->getOperand(0) });
            ci->setOperand(0, v);
          }
          else if (isa<FPTruncInst>(ci) || isa<FPExtInst>(ci))
          {
            Value* v = B.CreateCall(fn("__sym_narrow", D, { D }), { ci->getOperand(0) });
            ci->setOperand(0, v);
          }
          else if (isa<BitCastInst>(ci) && ci->getDestTy()->isIntegerTy())
          {
            for (User* u : ci->users())
              if (!isa<StoreInst>(u) && !isa<PHINode>(u) && !isa<ReturnInst>(u) && !isa<CallBase>(u) && !isa<BitCastInst>(u))
              {
                Value* v = B.CreateCall(fn("__sym_bits", D, { D }), { ci->getOperand(0) });
                ci->setOperand(0, v);
                break;
              }
          }
        }
        else if (src->isIntegerTy(64) && (isa<TruncInst>(ci) || isa<UIToFPInst>(ci) || isa<SIToFPInst>(ci)))
          guardInt(I);
      }
      else if (auto* cb = dyn_cast<CallBase>(I))
      {
        Function* callee = cb->getCalledFunction();
        if (callee == nullptr)
          continue;
        if (auto* ii = dyn_cast<IntrinsicInst>(cb))
        {
          if (ii->getIntrinsicID() == Intrinsic::is_fpclass && ii->getArgOperand(0)->getType()->isDoubleTy())
          {
            Value* r = B.CreateCall(fn("__sym_is_fpclass", I32, { D, I32 }), { ii->getArgOperand(0), ii->getArgOperand(1) });
            r = B.CreateTrunc(r, I1);
            ii->replaceAllUsesWith(r);
            dead.push_back(ii);
            continue;
          }
          if (ii->getIntrinsicID() == Intrinsic::powi && ii->getType()->isDoubleTy())
          {
            Value* r = B.CreateCall(fn("__sym_powi", D, { D, I32 }), { ii->getArgOperand(0), ii->getArgOperand(1) });
            ii->replaceAllUsesWith(r);
            dead.push_back(ii);
            continue;
          }
          if (!ii->getType()->isDoubleTy())
          {
            if (ii->getType()->isFPOrFPVectorTy() && !ii->getType()->isFloatTy() && !ii->getType()->isX86_FP80Ty())
              report_fatal_error(Twine("symbolic pass: vector intrinsic ") + callee->getName());
            continue;
          }
          std::string n;
          switch (ii->getIntrinsicID())
          {
            case Intrinsic::fabs: n = "fabs"; break;
            case Intrinsic::sqrt: n = "sqrt"; break;
            case Intrinsic::minnum: n = "fmin"; break;
            case Intrinsic::maxnum: n = "fmax"; break;
            case Intrinsic::minimum: n = "fmin"; break;
            case Intrinsic::maximum: n = "fmax"; break;
            case Intrinsic::fma: n = "fma"; break;
            case Intrinsic::fmuladd: n = "fma"; break;
            case Intrinsic::floor: n = "floor"; break;
            case Intrinsic::ceil: n = "ceil"; break;
            case Intrinsic::trunc: n = "trunc"; break;
            case Intrinsic::round: n = "round"; break;
            case Intrinsic::rint: n = "rint"; break;
            case Intrinsic::nearbyint: n = "nearbyint"; break;
            case Intrinsic::copysign: n = "copysign"; break;
            case Intrinsic::pow: n = "pow"; break;
            case Intrinsic::sin: n = "sin"; break;
            case Intrinsic::cos: n = "cos"; break;
            case Intrinsic::exp: n = "exp"; break;
            case Intrinsic::log: n = "log"; break;
            case Intrinsic::exp2: n = "exp2"; break;
            case Intrinsic::log2: n = "log2"; break;
            case Intrinsic::log10: n = "log10"; break;
            default: report_fatal_error(Twine("symbolic pass: unhandled intrinsic ") + callee->getName());
          }
          replaceMath(B, cb, n, dead);
          continue;
        }
        if (!callee->isDeclaration())
          continue;
        StringRef cn = callee->getName();
        if (cn == "_ZSt11_Hash_bytesPKvmm" && cb->arg_size() == 3)
          B.CreateCall(fn("__sym_check_mem", V, { P, I64 }), { cb->getArgOperand(0), cb->getArgOperand(1) });
        else if ((cn == "memcmp" || cn == "bcmp") && cb->arg_size() == 3)
        {
          B.CreateCall(fn("__sym_check_mem", V, { P, I64 }), { cb->getArgOperand(0), cb->getArgOperand(2) });
          B.CreateCall(fn("__sym_check_mem", V, { P, I64 }), { cb->getArgOperand(1), cb->getArgOperand(2) });
        }
        else if (cb->getType()->isDoubleTy())
        {
          std::string out;
          int ar = knownMath(cn, out);
          if (ar != 0 && static_cast<unsigned>(ar) == cb->arg_size())
            replaceMath(B, cb, cn.str(), dead);
        }
      }
    }
    for (Instruction* I : dead)
      if (!I->isTerminator())
        I->eraseFromParent();
    // coverage marker of the functions of the code under test
    StringRef n = F.getName();
    if (n.contains("trajopt") || n.contains("3sco") || n.contains("6VHACD") || n.contains("bpmpd"))
    {
      IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
      auto* flag = new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), false, GlobalValue::InternalLinkage,
                                      ConstantInt::get(Type::getInt8Ty(M->getContext()), 0), "__sym_flag");
      Value* nm = B.CreateGlobalStringPtr(n);
      B.CreateCall(fn("__sym_fn", V, { P, P }), { flag, nm });
    }
  }

  void replaceMath(IRBuilder<>& B, CallBase* cb, const std::string& n, std::vector<Instruction*>& dead)
  {
    std::vector<Value*> args(cb->arg_begin(), cb->arg_end());
    std::vector<Type*> tys(args.size(), D);
    Value* r = B.CreateCall(fn("__sym_" + n, D, tys), args);
    cb->replaceAllUsesWith(r);
    if (auto* inv = dyn_cast<InvokeInst>(cb))
    {
      BasicBlock* normal = inv->getNormalDest();
      inv->getUnwindDest()->removePredecessor(inv->getParent());
      BranchInst::Create(normal, inv);
      inv->eraseFromParent();
    }
    else
      dead.push_back(cb);
  }

  // integer arithmetic directly on a 64-bit value that was loaded from memory or re-interpreted from a double: if that
  // value is a symbolic double the term would be inspected as bits, which is not supported -> stop instead of lying
  void guardInt(Instruction* I)
  {
    for (unsigned k = 0; k < I->getNumOperands(); ++k)
    {
      Value* v = I->getOperand(k);
      if (!v->getType()->isIntegerTy(64))
        continue;
      if (auto* l = dyn_cast<LoadInst>(v))
      {
        IRBuilder<> B(I);
        B.CreateCall(fn("__sym_guard_i64", V, { I64 }), { l });
      }
    }
  }

  PreservedAnalyses run(Module& Mod, ModuleAnalysisManager& MAM)
  {
    M = &Mod;
    LLVMContext& C = Mod.getContext();
    D = Type::getDoubleTy(C);
    I1 = Type::getInt1Ty(C);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    V = Type::getVoidTy(C);
    P = PointerType::getUnqual(C);
    std::vector<Function*> fs;
    for (Function& F : Mod)
      if (!F.isDeclaration() && !F.getName().starts_with("__sym_"))
        fs.push_back(&F);
    for (Function* F : fs)
      runOn(*F);
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
  return { LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
              ScalarizerPassOptions so;
              so.ScalarizeLoadStore = false;
              MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(so)));
              MPM.addPass(SymPass());
            });
          } };
}
