// LLVM 18 pass plugin: rewrites every floating point operation of a module into a call into the symbolic runtime
// (rt.cpp). Memory, integers, pointers, control flow, exceptions stay native: a symbolic double is a NaN-boxed handle
// that loads, stores, phis, selects and calls move around untouched.
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
struct SymFP : PassInfoMixin<SymFP> {
  static bool isRequired() { return true; }

  static bool fpVec(Type *t) { return t->isVectorTy() && t->getScalarType()->isFloatingPointTy(); }

  // a construct the engine cannot encode: executing it ends the path as "unsupported" (reported in the evidence)
  void die(Instruction *I, const char *why) {
    IRBuilder<> B(I);
    Module *M = I->getModule();
    Value *str = B.CreateGlobalStringPtr(std::string(why) + " in " + demangle(I->getFunction()->getName().str()).substr(0, 150), "symunsup");
    B.CreateCall(M->getOrInsertFunction("__symfp_unsup", FunctionType::get(Type::getVoidTy(M->getContext()), {PointerType::get(M->getContext(), 0)}, false)), {str});
  }

  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    Type *D = Type::getDoubleTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *I8 = Type::getInt8Ty(C);
    auto fn = [&](const char *n, Type *r, std::vector<Type *> a) { return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
    // names of external libm functions -> number of double arguments
    static const std::map<std::string, int> libm = {
        {"sqrt", 1}, {"pow", 2}, {"fabs", 1}, {"floor", 1}, {"ceil", 1}, {"fmod", 2}, {"round", 1}, {"trunc", 1},
        {"sin", 1}, {"cos", 1}, {"tan", 1}, {"asin", 1}, {"acos", 1}, {"atan", 1}, {"atan2", 2}, {"exp", 1}, {"log", 1},
        {"log10", 1}, {"log2", 1}, {"hypot", 2}, {"fmin", 2}, {"fmax", 2}, {"copysign", 2}, {"cbrt", 1}, {"exp2", 1},
        {"rint", 1}, {"nearbyint", 1}};
    // text <-> number conversions of the C and C++ libraries: models in rt.cpp (digits of a numeral can be symbolic)
    static const std::map<std::string, std::string> redirect = {
        {"strtol", "__symfp_strtol"}, {"__isoc23_strtol", "__symfp_strtol"}, {"strtod", "__symfp_strtod"}, {"vsnprintf", "__symfp_vsnprintf"},
        {"snprintf", "__symfp_snprintf"}, {"sprintf", "__symfp_sprintf"}, {"_ZNSo9_M_insertIdEERSoT_", "__symfp_ostream"}, {"_ZNSolsEd", "__symfp_ostream"},
        {"_ZNSi10_M_extractIdEERSiRT_", "__symfp_istream"}, {"_ZNSirsERd", "__symfp_istream"}};
    for (auto &k : redirect)
      if (Function *f = M.getFunction(k.first))
        if (f->isDeclaration()) {
          FunctionCallee g = M.getOrInsertFunction(k.second, f->getFunctionType());
          f->replaceAllUsesWith(g.getCallee());
        }
    for (Function &F : M) {
      if (F.isDeclaration()) continue;
      {
        // coverage: report which functions of the library were executed symbolically
        std::string dn = demangle(F.getName().str());
        std::string head = dn.substr(0, dn.find('('));
        bool lib = false;
        for (const char *ns : {"spl::", "baf::", "io::", "util::", "iga::"}) {
          size_t q = head.find(ns);
          if (q != std::string::npos && (q == 0 || !(isalnum(head[q - 1]) || head[q - 1] == '_' || head[q - 1] == ':'))) {
            // the namespace must be that of the function, not of a template argument
            size_t lt = head.find('<');
            if (lt == std::string::npos || q < lt) lib = true;
          }
        }
        if (lib && head.compare(0, 5, "std::") != 0 && head.find(" std::") == std::string::npos && head.find("__gnu") == std::string::npos) {
          IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt());
          auto *slot = new GlobalVariable(M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0), "symcov");
          Value *str = EB.CreateGlobalStringPtr(dn.substr(0, 190), "symcovname");
          EB.CreateCall(fn("__symfp_enter", Type::getVoidTy(C), {PointerType::get(C, 0), PointerType::get(C, 0)}), {slot, str});
        }
      }
      std::vector<Instruction *> work;
      for (Instruction &I : instructions(F)) work.push_back(&I);
      for (Instruction *I : work) {
        IRBuilder<> B(I);
        Type *T = I->getType();
        // scalarise small fp vectors is not supported: compile with vectorisers off
        auto widen = [&](Value *v) -> Value * { return v->getType()->isFloatTy() ? B.CreateFPExt(v, D) : v; };
        auto rep = [&](Value *v) { I->replaceAllUsesWith(v); I->eraseFromParent(); };
        if (auto *BO = dyn_cast<BinaryOperator>(I)) {
          if (!T->getScalarType()->isFloatingPointTy()) continue;
          if (fpVec(T)) { die(I, "vector op"); continue; }
          if (T->isX86_FP80Ty()) continue;  // long double helper code (libstdc++ random): stays concrete
          if (!T->isDoubleTy()) continue;  // float: operands are concrete (conversions from double are checked)
          const char *n = nullptr;
          switch (BO->getOpcode()) {
            case Instruction::FAdd: n = "__symfp_add"; break;
            case Instruction::FSub: n = "__symfp_sub"; break;
            case Instruction::FMul: n = "__symfp_mul"; break;
            case Instruction::FDiv: n = "__symfp_div"; break;
            case Instruction::FRem: n = "__symfp_rem"; break;
            default: die(I, "binop"); continue;
          }
          rep(B.CreateCall(fn(n, D, {D, D}), {I->getOperand(0), I->getOperand(1)}));
        } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
          if (!T->getScalarType()->isFloatingPointTy()) continue;
          if (fpVec(T)) { die(I, "vector op"); continue; }
          if (!T->isDoubleTy()) continue;
          (void)U;
          rep(B.CreateCall(fn("__symfp_neg", D, {D}), {I->getOperand(0)}));
        } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
          Type *OT = FC->getOperand(0)->getType();
          if (OT->isX86_FP80Ty()) continue;
          if (fpVec(OT)) { die(I, "vector fcmp"); continue; }
          if (!OT->isDoubleTy()) continue;
          Value *r = B.CreateCall(fn("__symfp_cmp", I32, {I32, D, D}),
                                  {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
          rep(B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
        } else if (auto *CI = dyn_cast<CastInst>(I)) {
          Type *ST = CI->getSrcTy(), *DT = CI->getDestTy();
          switch (CI->getOpcode()) {
            case Instruction::FPToSI:
              if (ST->isX86_FP80Ty()) break;
              if (!ST->isDoubleTy()) { if (fpVec(ST)) die(I, "fptosi"); break; }
              rep(B.CreateSExtOrTrunc(B.CreateCall(fn("__symfp_tosi", I64, {D}), {CI->getOperand(0)}), DT));
              break;
            case Instruction::FPToUI:
              if (ST->isX86_FP80Ty()) break;
              if (!ST->isDoubleTy()) { if (fpVec(ST)) die(I, "fptoui"); break; }
              rep(B.CreateZExtOrTrunc(B.CreateCall(fn("__symfp_toui", I64, {D}), {CI->getOperand(0)}), DT));
              break;
            case Instruction::FPTrunc:
              if (ST->isDoubleTy()) CI->setOperand(0, B.CreateCall(fn("__symfp_tofloat", D, {D}), {CI->getOperand(0)}));
              break;
            case Instruction::SIToFP:
              if (DT->isDoubleTy() && ST->isIntegerTy() && ST->getIntegerBitWidth() >= 32 && ST->getIntegerBitWidth() <= 64)
                rep(B.CreateCall(fn("__symfp_sitofp", D, {I64}), {B.CreateSExtOrTrunc(CI->getOperand(0), I64)}));
              break;
            case Instruction::FPExt:
              if (ST->isDoubleTy()) {  // double -> x86_fp80: value must be concrete
                Value *v = B.CreateCall(fn("__symfp_concrete", D, {D}), {CI->getOperand(0)});
                CI->setOperand(0, v);
              }
              break;
            case Instruction::BitCast:
              if (ST->isDoubleTy() && DT->isIntegerTy()) {
                for (User *u : CI->users())
                  if (!isa<StoreInst>(u) && !isa<PHINode>(u) && !isa<CallBase>(u) && !isa<ReturnInst>(u) && !isa<InsertValueInst>(u) && !isa<SelectInst>(u))
                    { die(I, "integer view of a double"); break; }
              }
              break;
            default: break;
          }
        } else if (auto *CB = dyn_cast<CallBase>(I)) {
          Function *cal = CB->getCalledFunction();
          if (!cal) continue;
          if (cal->isIntrinsic()) {
            bool anyfp = T->getScalarType()->isFloatingPointTy();
            for (Value *a : CB->args()) anyfp |= a->getType()->getScalarType()->isFloatingPointTy();
            if (!anyfp) continue;
            if (fpVec(T)) { die(I, "vector intrinsic"); continue; }
            const char *n = nullptr;
            int na = (int)CB->arg_size();
            switch (cal->getIntrinsicID()) {
              case Intrinsic::fabs: n = "fabs"; break;
              case Intrinsic::sqrt: n = "sqrt"; break;
              case Intrinsic::pow: n = "pow"; break;
              case Intrinsic::floor: n = "floor"; break;
              case Intrinsic::ceil: n = "ceil"; break;
              case Intrinsic::round: n = "round"; break;
              case Intrinsic::trunc: n = "trunc"; break;
              case Intrinsic::rint: n = "rint"; break;
              case Intrinsic::nearbyint: n = "nearbyint"; break;
              case Intrinsic::sin: n = "sin"; break;
              case Intrinsic::cos: n = "cos"; break;
              case Intrinsic::exp: n = "exp"; break;
              case Intrinsic::exp2: n = "exp2"; break;
              case Intrinsic::log: n = "log"; break;
              case Intrinsic::log10: n = "log10"; break;
              case Intrinsic::log2: n = "log2"; break;
              case Intrinsic::minnum: n = "fmin"; break;
              case Intrinsic::maxnum: n = "fmax"; break;
              case Intrinsic::copysign: n = "copysign"; break;
              case Intrinsic::powi: {
                if (!T->isDoubleTy()) continue;
                Value *e = B.CreateSIToFP(CB->getArgOperand(1), D);
                rep(B.CreateCall(fn("__symfp_pow", D, {D, D}), {CB->getArgOperand(0), e}));
                continue;
              }
              case Intrinsic::fmuladd: case Intrinsic::fma: {
                Value *m = B.CreateCall(fn("__symfp_mul", D, {D, D}), {CB->getArgOperand(0), CB->getArgOperand(1)});
                rep(B.CreateCall(fn("__symfp_add", D, {D, D}), {m, CB->getArgOperand(2)}));
                continue;
              }
              case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: continue;
              case Intrinsic::is_fpclass: {
                if (!CB->getArgOperand(0)->getType()->isDoubleTy()) continue;
                Value *r = B.CreateCall(fn("__symfp_fpclass", I32, {D, I32}), {CB->getArgOperand(0), CB->getArgOperand(1)});
                rep(B.CreateICmpNE(r, ConstantInt::get(I32, 0)));
                continue;
              }
              default:
                if (!T->isDoubleTy()) continue;
                die(I, "intrinsic");
                continue;
            }
            if (!T->isDoubleTy()) continue;
            std::string nm = std::string("__symfp_") + n;
            std::vector<Value *> args(CB->arg_begin(), CB->arg_end());
            std::vector<Type *> ty(na, D);
            rep(B.CreateCall(M.getOrInsertFunction(nm, FunctionType::get(D, ty, false)), args));
            continue;
          }
          if (cal->isDeclaration()) {
            auto it = libm.find(cal->getName().str());
            if (it != libm.end() && T->isDoubleTy()) {
              std::vector<Type *> ty(it->second, D);
              CB->setCalledFunction(M.getOrInsertFunction("__symfp_" + it->first, FunctionType::get(D, ty, false)));
              CB->setAttributes(AttributeList());
            }
          }
        } else if (isa<AtomicRMWInst>(I) && T->isFloatingPointTy()) {
          die(I, "atomic");
        }
        (void)I8; (void)widen;
      }
    }
    return PreservedAnalyses::none();
  }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "symfp", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymFP()); });
          }};
}
