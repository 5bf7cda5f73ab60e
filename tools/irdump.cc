// irdump: reads an LLVM bitcode module and writes, as JSON, the bodies of every
// function reachable from the entry points (functions whose name starts with a
// given prefix, and the module's global constructors), with all constant
// offsets, exception clauses and source positions resolved.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/MapVector.h"
#include <set>
#include <deque>
using namespace llvm;

static const DataLayout *DL;
static json::OStream *J;
static std::map<const Value *, int> Ids;
static std::set<const GlobalValue *> Seen;
static std::deque<const Function *> Work;
static std::deque<const GlobalVariable *> GWork;

static void touch(const GlobalValue *G) {
  if (!Seen.insert(G).second) return;
  if (auto *F = dyn_cast<Function>(G)) Work.push_back(F);
  else if (auto *V = dyn_cast<GlobalVariable>(G)) GWork.push_back(V);
  else if (auto *A = dyn_cast<GlobalAlias>(G))
    if (auto *O = dyn_cast_or_null<GlobalValue>(A->getAliaseeObject())) touch(O);
}

static std::string tyStr(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (T->isVoidTy()) return "v";
  if (T->isStructTy() || T->isArrayTy()) return "a";
  return "x";
}
static int64_t tySize(Type *T) {
  if (!T->isSized()) return 0;
  return (int64_t)DL->getTypeAllocSize(T).getKnownMinValue();
}
static int64_t stSize(Type *T) {
  if (!T->isSized()) return 0;
  return (int64_t)DL->getTypeStoreSize(T).getKnownMinValue();
}

static const GlobalValue *resolveAlias(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G))
    if (auto *O = dyn_cast_or_null<GlobalValue>(A->getAliaseeObject())) return O;
  return G;
}

static void operand(const Value *V);

static void constAgg(const Constant *C) {
  J->array([&] {
    J->value("agg");
    unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements()
                                            : C->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++)
      if (auto *E = C->getAggregateElement(i)) operand(E);
      else J->array([&] { J->value("u"); });
  });
}

static void operand(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    J->array([&] {
      J->value("i"); J->value((int64_t)CI->getBitWidth());
      SmallString<32> s; CI->getValue().toString(s, 10, false);
      J->value(std::string(s.str()));
    });
    return;
  }
  if (isa<ConstantPointerNull>(V)) { J->array([&] { J->value("n"); }); return; }
  if (isa<UndefValue>(V)) { J->array([&] { J->value("u"); }); return; }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    J->array([&] {
      J->value("f");
      SmallString<32> s; CF->getValueAPF().toString(s);
      J->value(std::string(s.str()));
    });
    return;
  }
  if (auto *G = dyn_cast<GlobalValue>(V)) {
    auto *R = resolveAlias(G);
    touch(R);
    J->array([&] { J->value("g"); J->value(R->getName()); });
    return;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt Off(64, 0);
      if (GO->accumulateConstantOffset(*DL, Off)) {
        J->array([&] {
          J->value("cgep"); operand(GO->getPointerOperand()); J->value(Off.getSExtValue());
        });
        return;
      }
    }
    J->array([&] {
      J->value("ce"); J->value(CE->getOpcodeName()); J->value(tyStr(CE->getType()));
      for (auto &O : CE->operands()) operand(O.get());
    });
    return;
  }
  if (auto *C = dyn_cast<Constant>(V)) {
    if (isa<ConstantAggregateZero>(C)) {
      J->array([&] { J->value("z"); J->value(tySize(C->getType())); });
      return;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      if (CD->isString()) {
        std::string h;
        for (unsigned char c : CD->getAsString()) { char b[3]; snprintf(b, 3, "%02x", c); h += b; }
        J->array([&] { J->value("s"); J->value(h); });
        return;
      }
      constAgg(C);
      return;
    }
    if (isa<ConstantAggregate>(C)) { constAgg(C); return; }
    J->array([&] { J->value("u"); });
    return;
  }
  if (isa<MetadataAsValue>(V)) { J->array([&] { J->value("md"); }); return; }
  auto it = Ids.find(V);
  if (it != Ids.end()) { J->array([&] { J->value("v"); J->value(it->second); }); return; }
  J->array([&] { J->value("u"); });
}

static void dumpInit(const Constant *C, int64_t off, Type *T) {
  // flat list of scalar initialisers: [offset, size, operand]
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    J->array([&] { J->value(off); J->value(tySize(T)); operand(C); });
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C); CD && CD->isString()) {
    J->array([&] { J->value(off); J->value(tySize(T)); operand(C); });
    return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      if (auto *E = C->getAggregateElement(i))
        dumpInit(E, off + (int64_t)SL->getElementOffset(i), ST->getElementType(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    for (unsigned i = 0; i < AT->getNumElements() && i < 4096; i++)
      if (auto *E = C->getAggregateElement(i))
        dumpInit(E, off + (int64_t)i * tySize(AT->getElementType()), AT->getElementType());
    return;
  }
  J->array([&] { J->value(off); J->value(tySize(T)); operand(C); });
}

static int64_t typeBytes(const DIType *T) {
  while (T) {
    if (T->getSizeInBits()) return (int64_t)T->getSizeInBits() / 8;
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) return 0;
    T = D->getBaseType();
  }
  return 0;
}
static const DIType *strip(const DIType *T) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) return D;
    T = D->getBaseType();
  }
  return T;
}
static int64_t elemSize(const DICompositeType *CT) {
  const DIType *First = nullptr, *Alloc = nullptr;
  for (auto *P : CT->getTemplateParams())
    if (auto *TP = dyn_cast<DITemplateTypeParameter>(P)) {
      if (!First) First = TP->getType();
      if (TP->getType() && TP->getType()->getName().starts_with("allocator<")) Alloc = TP->getType();
    }
  if (Alloc)
    if (auto *AC = dyn_cast_or_null<DICompositeType>(strip(Alloc)))
      for (auto *P : AC->getTemplateParams())
        if (auto *TP = dyn_cast<DITemplateTypeParameter>(P)) return typeBytes(TP->getType());
  return First ? typeBytes(First) : 0;
}

static void dumpFn(const Function *F) {
  J->attributeBegin(F->getName());
  J->objectBegin();
  J->attribute("dem", demangle(F->getName().str()));
  {
    ItaniumPartialDemangler D;
    std::string Mangled = F->getName().str(); // the demangler refers to it
    if (!D.partialDemangle(Mangled.c_str())) {
      if (D.isFunction()) {
        size_t N = 0;
        auto put = [&](const char *key, char *c) {
          if (!c) return;
          J->attribute(key, json::fixUTF8(StringRef(c, strnlen(c, N))));
          free(c);
          N = 0;
        };
        put("base", D.getFunctionBaseName(nullptr, &N)); N = 0;
        put("ctx", D.getFunctionDeclContextName(nullptr, &N)); N = 0;
        put("params", D.getFunctionParameters(nullptr, &N));
        if (D.isCtorOrDtor()) J->attribute("cd", true);
      }
    }
    // size of the elements of the class template the function is a member of
    if (auto *SP = F->getSubprogram()) {
      const DIScope *Sc = SP->getScope();
      if (auto *Dc = SP->getDeclaration()) Sc = Dc->getScope();
      if (auto *CT = dyn_cast_or_null<DICompositeType>(Sc)) {
        if (int64_t sz = elemSize(CT)) J->attribute("vs", sz);
        J->attribute("clsz", (int64_t)CT->getSizeInBits() / 8);
      }
    }
  }
  if (F->doesNotThrow()) J->attribute("nounwind", true);
  if (F->doesNotReturn()) J->attribute("noreturn", true);
  J->attribute("ret", tyStr(F->getReturnType()));
  J->attribute("link", F->hasLocalLinkage() ? "internal" : F->hasLinkOnceLinkage() ? "odr" : "ext");
  if (auto *SP = F->getSubprogram()) {
    J->attribute("file", SP->getFile() ? (SP->getFile()->getFilename()) : StringRef());
    J->attribute("line", (int64_t)SP->getLine());
  }
  Ids.clear();
  int n = 0;
  J->attributeArray("args", [&] {
    for (auto &A : F->args()) {
      Ids[&A] = n;
      J->array([&] {
        J->value(n); J->value(tyStr(A.getType()));
        J->value(A.hasStructRetAttr() ? "sret" : A.hasByValAttr() ? "byval" : "");
        J->value(A.hasByValAttr() ? tySize(A.getParamByValType())
                 : A.hasStructRetAttr() ? tySize(A.getParamStructRetType()) : 0);
      });
      n++;
    }
  });
  std::map<const BasicBlock *, int> B;
  int bn = 0;
  for (auto &BB : *F) B[&BB] = bn++;
  for (auto &BB : *F) for (auto &I : BB) Ids[&I] = n++;
  if (!F->isDeclaration())
    J->attributeArray("blocks", [&] {
      for (auto &BB : *F)
        J->array([&] {
          for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            J->objectBegin();
            J->attribute("o", I.getOpcodeName());
            if (!I.getType()->isVoidTy()) {
              J->attribute("r", Ids[&I]);
              J->attribute("t", tyStr(I.getType()));
            }
            if (auto &DLc = I.getDebugLoc()) {
              J->attribute("l", (int64_t)DLc.getLine());
              if (auto *Sc = dyn_cast_or_null<DIScope>(DLc.getScope()))
                if (Sc->getFile()) J->attribute("f", Sc->getFile()->getFilename());
            }
            auto ops = [&] {
              J->attributeArray("a", [&] { for (auto &O : I.operands()) operand(O.get()); });
            };
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
              J->attribute("sz", tySize(A->getAllocatedType()));
              ops();
            } else if (auto *L = dyn_cast<LoadInst>(&I)) {
              J->attribute("sz", stSize(L->getType()));
              if (L->isAtomic()) J->attribute("at", true);
              ops();
            } else if (auto *S = dyn_cast<StoreInst>(&I)) {
              J->attribute("sz", stSize(S->getValueOperand()->getType()));
              J->attribute("t", tyStr(S->getValueOperand()->getType()));
              if (S->isAtomic()) J->attribute("at", true);
              ops();
            } else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) {
              J->attribute("sz", stSize(R->getValOperand()->getType()));
              J->attribute("op", AtomicRMWInst::getOperationName(R->getOperation()));
              ops();
            } else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
              J->attribute("sz", stSize(X->getNewValOperand()->getType()));
              J->attribute("ot", tyStr(X->getNewValOperand()->getType()));
              ops();
            } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
              unsigned BW = DL->getIndexSizeInBits(0);
              MapVector<Value *, APInt> Vars;
              APInt C(BW, 0);
              cast<GEPOperator>(G)->collectOffset(*DL, BW, Vars, C);
              J->attributeArray("a", [&] { operand(G->getPointerOperand()); });
              J->attribute("off", C.getSExtValue());
              if (!Vars.empty())
                J->attributeArray("vars", [&] {
                  for (auto &P : Vars)
                    J->array([&] {
                      operand(P.first); J->value(P.second.getSExtValue());
                      J->value((int64_t)P.first->getType()->getIntegerBitWidth());
                    });
                });
            } else if (auto *Ci = dyn_cast<CmpInst>(&I)) {
              J->attribute("p", CmpInst::getPredicateName(Ci->getPredicate()));
              J->attribute("ot", tyStr(Ci->getOperand(0)->getType()));
              ops();
            } else if (auto *Ca = dyn_cast<CastInst>(&I)) {
              J->attribute("ot", tyStr(Ca->getSrcTy()));
              ops();
            } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
              if (Br->isConditional())
                J->attributeArray("a", [&] { operand(Br->getCondition()); });
              J->attributeArray("to", [&] { for (unsigned N2 = 0; N2 < Br->getNumSuccessors(); ++N2) J->value(B[Br->getSuccessor(N2)]); });
            } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
              J->attributeArray("a", [&] { operand(Sw->getCondition()); });
              J->attribute("def", B[Sw->getDefaultDest()]);
              J->attributeArray("cases", [&] {
                for (auto &Cs : Sw->cases())
                  J->array([&] { operand(Cs.getCaseValue()); J->value(B[Cs.getCaseSuccessor()]); });
              });
            } else if (auto *Ph = dyn_cast<PHINode>(&I)) {
              J->attributeArray("in", [&] {
                for (unsigned i = 0; i < Ph->getNumIncomingValues(); i++)
                  J->array([&] { operand(Ph->getIncomingValue(i)); J->value(B[Ph->getIncomingBlock(i)]); });
              });
            } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
              J->attribute("cleanup", LP->isCleanup());
              J->attributeArray("clauses", [&] {
                for (unsigned i = 0; i < LP->getNumClauses(); i++)
                  J->array([&] {
                    J->value(LP->isCatch(i) ? "catch" : "filter");
                    operand(LP->getClause(i));
                  });
              });
            } else if (auto *Ex = dyn_cast<ExtractValueInst>(&I)) {
              J->attributeArray("ix", [&] { for (unsigned x : Ex->indices()) J->value((int64_t)x); });
              ops();
            } else if (auto *In = dyn_cast<InsertValueInst>(&I)) {
              J->attributeArray("ix", [&] { for (unsigned x : In->indices()) J->value((int64_t)x); });
              ops();
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
              J->attributeBegin("fn"); operand(CB->getCalledOperand()); J->attributeEnd();
              J->attributeArray("a", [&] { for (auto &O : CB->args()) operand(O.get()); });
              if (CB->doesNotThrow()) J->attribute("nounwind", true);
              bool bv = false;
              for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) bv = true;
              if (bv)
                J->attributeArray("bv", [&] {
                  for (unsigned i = 0; i < CB->arg_size(); i++)
                    J->value(CB->isByValArgument(i) ? tySize(CB->getParamByValType(i)) : 0);
                });
              if (auto *Iv = dyn_cast<InvokeInst>(&I)) {
                J->attribute("nd", B[Iv->getNormalDest()]);
                J->attribute("ud", B[Iv->getUnwindDest()]);
              }
            } else ops();
            J->objectEnd();
          }
        });
    });
  J->objectEnd();
  J->attributeEnd();
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irdump in.bc out.json prefix...\n"; return 2; }
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::error_code EC;
  raw_fd_ostream OS(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream JS(OS);
  J = &JS;
  JS.objectBegin();
  std::vector<std::string> entries;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    for (int i = 3; i < argc; i++)
      if (F.getName().starts_with(argv[i])) { entries.push_back(F.getName().str()); touch(&F); }
  }
  if (auto *GC = M->getNamedGlobal("llvm.global_ctors")) {
    JS.attributeArray("ctors", [&] {
      if (GC->hasInitializer())
        if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer()))
          for (auto &O : CA->operands())
            if (auto *F = dyn_cast<Function>(cast<Constant>(O)->getAggregateElement(1u)->stripPointerCasts())) {
              JS.value(F->getName()); touch(F);
            }
    });
  }
  JS.attributeArray("entries", [&] { for (auto &s : entries) JS.value(s); });
  JS.attributeObject("functions", [&] {
    while (!Work.empty()) {
      auto *F = Work.front(); Work.pop_front();
      dumpFn(F);
      // initialisers of globals may reach further functions
      for (size_t i = 0; i < GWork.size(); i++) {
        auto *G = GWork[i];
        static std::set<const GlobalVariable *> done;
        if (!done.insert(G).second) continue;
        if (G->hasInitializer()) {
          std::deque<const Constant *> q{G->getInitializer()};
          std::set<const Constant *> s;
          while (!q.empty()) {
            auto *C = q.front(); q.pop_front();
            if (!s.insert(C).second) continue;
            if (auto *GV = dyn_cast<GlobalValue>(C)) { touch(resolveAlias(GV)); continue; }
            for (auto &O : C->operands()) if (auto *CC = dyn_cast<Constant>(O.get())) q.push_back(CC);
          }
        }
      }
    }
  });
  JS.attributeObject("structs", [&] {
    for (auto *ST : M->getIdentifiedStructTypes())
      if (ST->hasName() && ST->isSized() && ST->getName().contains("wit::"))
        JS.attribute(ST->getName(), (int64_t)tySize(ST));
  });
  JS.attributeObject("globals", [&] {
    for (size_t i = 0; i < GWork.size(); i++) {
      auto *G = GWork[i];
      JS.attributeObject(G->getName(), [&] {
        JS.attribute("dem", demangle(G->getName().str()));
        JS.attribute("size", tySize(G->getValueType()));
        JS.attribute("const", G->isConstant());
        JS.attribute("tls", G->isThreadLocal());
        JS.attribute("decl", G->isDeclaration());
        if (G->hasInitializer() && !isa<ConstantAggregateZero>(G->getInitializer())) {
          Ids.clear();
          JS.attributeArray("init", [&] { dumpInit(G->getInitializer(), 0, G->getValueType()); });
        }
        SmallVector<DIGlobalVariableExpression *, 1> Es;
        G->getDebugInfo(Es);
        if (!Es.empty()) {
          auto *V = Es[0]->getVariable();
          if (V->getFile()) JS.attribute("file", V->getFile()->getFilename());
          JS.attribute("line", (int64_t)V->getLine());
        }
      });
    }
  });
  JS.objectEnd();
  OS << "\n";
  return 0;
}
