// irdump: reads LLVM IR / bitcode files, links them, promotes memory to SSA and writes a JSON view of the
// resolved program (functions, blocks, instructions, globals, debug-info layouts) for the analyses in /verif/lib.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static std::string tystr(Type *T) { std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str(); }
static uint64_t tysize(Type *T) { if (!T->isSized()) return 0; return DL->getTypeAllocSize(T).getFixedValue(); }

static json::Value constant(const Constant *C, int depth = 0);

static json::Value operand(const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  if (isa<BasicBlock>(V)) return json::Array{"b", ids[V]};
  if (auto *MD = dyn_cast<MetadataAsValue>(V)) { (void)MD; return json::Array{"md"}; }
  if (isa<InlineAsm>(V)) return json::Array{"asm"};
  return json::Array{"%", ids[V]};
}

static json::Value constant(const Constant *C, int depth) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64) return json::Array{"c", CI->getSExtValue(), (int64_t)CI->getBitWidth()};
    return json::Array{"undef"};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"null"};
  if (isa<UndefValue>(C)) return json::Array{"undef"};
  if (auto *F = dyn_cast<Function>(C)) return json::Array{"f", F->getName().str()};
  if (auto *A = dyn_cast<GlobalAlias>(C)) { if (A->getAliaseeObject() ) return constant(A->getAliaseeObject(), depth); }
  if (auto *G = dyn_cast<GlobalVariable>(C)) return json::Array{"g", G->getName().str()};
  if (auto *FP = dyn_cast<ConstantFP>(C)) {
    APFloat v = FP->getValueAPF(); bool li;
    v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = v.convertToDouble();
    std::string s; raw_string_ostream os(s); char fb[64]; snprintf(fb, sizeof fb, "%.17g", d); os << fb;
    return json::Array{"fp", os.str()};
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt off(64, 0);
      if (GO->accumulateConstantOffset(*DL, off))
        return json::Array{"gep", constant(cast<Constant>(GO->getPointerOperand()), depth), off.getSExtValue()};
    }
    if (CE->isCast()) return constant(CE->getOperand(0), depth);
    return json::Array{"undef"};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"zero", (int64_t)tysize(C->getType())};
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    json::Array a;
    for (unsigned i = 0; i < CDS->getNumElements() && i < 65536; i++) a.push_back(constant(CDS->getElementAsConstant(i), depth + 1));
    return json::Array{"arr", (int64_t)tysize(CDS->getElementType()), std::move(a)};
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    json::Array a;
    for (auto &o : CA->operands()) a.push_back(constant(cast<Constant>(o.get()), depth + 1));
    return json::Array{"arr", (int64_t)tysize(CA->getType()->getElementType()), std::move(a)};
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    json::Array a; const StructLayout *SL = DL->getStructLayout(CS->getType());
    unsigned i = 0;
    for (auto &o : CS->operands()) { a.push_back(json::Array{(int64_t)SL->getElementOffset(i), constant(cast<Constant>(o.get()), depth + 1)}); i++; }
    return json::Array{"struct", std::move(a)};
  }
  return json::Array{"undef"};
}

static std::string dityname(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "...";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return dityname(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type: return dityname(D->getBaseType(), depth + 1) + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return dityname(D->getBaseType(), depth + 1) + "&&";
      case dwarf::DW_TAG_const_type: return dityname(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_volatile_type: return dityname(D->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: { return D->getName().str(); }
      default: return D->getName().str();
    }
  }
  if (auto *Cc = dyn_cast<DICompositeType>(T)) {
    if (Cc->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = dityname(Cc->getBaseType(), depth + 1);
      for (auto *e : Cc->getElements()) if (auto *SR = dyn_cast<DISubrange>(e)) {
        auto cnt = SR->getCount(); if (cnt && cnt.is<ConstantInt*>()) n += "[" + std::to_string(cnt.get<ConstantInt*>()->getSExtValue()) + "]"; else n += "[]";
      }
      return n;
    }
    std::string p;
    return p + (Cc->getName().empty() ? "<anon>" : Cc->getName().str());
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
static const DIType *strip(const DIType *T, bool td = true) {
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    unsigned t = D->getTag();
    if ((t == dwarf::DW_TAG_typedef && td) || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type) T = D->getBaseType(); else break;
  }
  return T;
}
// canonical type name: typedefs resolved
static std::string dican(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "...";
  T = strip(T);
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type || D->getTag() == dwarf::DW_TAG_rvalue_reference_type)
      return dican(D->getBaseType(), depth + 1) + "*";
  }
  if (auto *Cc = dyn_cast<DICompositeType>(T)) {
    if (Cc->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = dican(Cc->getBaseType(), depth + 1);
      for (auto *e : Cc->getElements()) if (auto *SR = dyn_cast<DISubrange>(e)) {
        auto cnt = SR->getCount(); if (cnt && cnt.is<ConstantInt*>()) n += "[" + std::to_string(cnt.get<ConstantInt*>()->getSExtValue()) + "]"; else n += "[]";
      }
      return n;
    }
    if (Cc->getTag() == dwarf::DW_TAG_enumeration_type) return "enum";
    return "struct " + (Cc->getName().empty() ? std::string("<anon>") : Cc->getName().str());
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

/* every use of the address leads to a load: nothing can write the object */
static bool onlyRead(const Value *v, int depth = 0) {
  if (depth > 20) return false;
  for (const User *u : v->users()) {
    if (isa<LoadInst>(u)) continue;
    if (isa<GetElementPtrInst>(u) || isa<BitCastInst>(u)) { if (!onlyRead(u, depth + 1)) return false; continue; }
    if (auto *ce = dyn_cast<ConstantExpr>(u)) { if ((ce->getOpcode() == Instruction::GetElementPtr || ce->getOpcode() == Instruction::BitCast) && onlyRead(ce, depth + 1)) continue; return false; }
    if (auto *c = dyn_cast<CallBase>(u)) { if (auto *f = c->getCalledFunction()) if (f->getName().startswith("llvm.dbg")) continue; }
    return false;
  }
  return true;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump out.json in.bc...\n"; return 2; }
  bool o1 = false;
  LLVMContext Ctx;
  std::unique_ptr<Module> M;
  for (int i = 2; i < argc; i++) {
    if (std::string(argv[i]) == "-s") { o1 = true; continue; }
    SMDiagnostic Err;
    auto N = parseIRFile(argv[i], Err, Ctx);
    if (!N) { Err.print(argv[0], errs()); return 2; }
    if (!M) { M = std::move(N); } else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string P = o1 ? "function(sroa<preserve-cfg>)" : "function(mem2reg)";
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  std::error_code EC; raw_fd_ostream OS(argv[1], EC);
  json::OStream J(OS);
  J.objectBegin();
  // struct layouts
  J.attributeBegin("structs"); J.objectBegin();
  for (auto *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque() || !ST->isSized()) continue;
    J.attributeBegin(ST->getName().str()); J.objectBegin();
    J.attribute("size", (int64_t)tysize(ST));
    json::Array a; auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) a.push_back(json::Array{(int64_t)SL->getElementOffset(i), tystr(ST->getElementType(i))});
    J.attribute("elems", std::move(a));
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // debug info composite types
  DebugInfoFinder F; F.processModule(*M);
  J.attributeBegin("di"); J.arrayBegin();
  for (auto *T : F.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C) continue;
    if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_class_type || C->getTag() == dwarf::DW_TAG_union_type) {
      if (C->isForwardDecl()) continue;
      J.objectBegin();
      J.attribute("name", C->getName().str());
      if (C->getScope() && !isa<DIFile>(C->getScope())) J.attribute("scope", C->getScope()->getName().str());
      J.attribute("ident", C->getIdentifier().str());
      J.attribute("kind", C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct");
      J.attribute("size", (int64_t)C->getSizeInBits() / 8);
      J.attribute("file", C->getFile() ? C->getFile()->getFilename().str() : "");
      json::Array a;
      for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) {
        if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
          const DIType *bt = strip(D->getBaseType());
          std::string sub;
          if (auto *bc = dyn_cast_or_null<DICompositeType>(bt)) sub = bc->getIdentifier().str();
          a.push_back(json::Array{D->getName().str(), (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getSizeInBits() / 8, dityname(D->getBaseType()), dican(D->getBaseType()), sub});
        }
        else if (D->getTag() == dwarf::DW_TAG_inheritance)
          a.push_back(json::Array{"<base>", (int64_t)D->getOffsetInBits() / 8, (int64_t)D->getBaseType()->getSizeInBits() / 8, dityname(D->getBaseType()), dican(D->getBaseType()), ""});
      }
      J.attribute("members", std::move(a));
      J.objectEnd();
    } else if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
      J.objectBegin();
      J.attribute("name", C->getName().str()); J.attribute("kind", "enum");
      json::Array a;
      for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIEnumerator>(e)) a.push_back(json::Array{D->getName().str(), D->getValue().getSExtValue()});
      J.attribute("members", std::move(a));
      J.objectEnd();
    }
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &G : M->globals()) {
    J.objectBegin();
    J.attribute("name", G.getName().str());
    J.attribute("const", G.isConstant() || (G.hasLocalLinkage() && G.hasInitializer() && !G.isThreadLocal() && onlyRead(&G)));
    J.attribute("decl", G.isDeclaration());
    J.attribute("tls", G.isThreadLocal());
    J.attribute("linkage", (int64_t)G.getLinkage());
    J.attribute("type", tystr(G.getValueType()));
    J.attribute("size", (int64_t)tysize(G.getValueType()));
    if (G.hasInitializer()) { J.attribute("init", constant(G.getInitializer())); }
    SmallVector<DIGlobalVariableExpression*, 1> GV; G.getDebugInfo(GV);
    if (!GV.empty()) { auto *v = GV[0]->getVariable(); J.attribute("srcname", v->getName().str()); J.attribute("line", (int64_t)v->getLine()); J.attribute("file", v->getFile() ? v->getFile()->getFilename().str() : "");
      J.attribute("scope", v->getScope() ? v->getScope()->getName().str() : ""); }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("funcs"); J.arrayBegin();
  for (auto &Fn : *M) {
    ids.clear(); int n = 0;
    for (auto &A : Fn.args()) ids[&A] = n++;
    int b = 0;
    for (auto &BB : Fn) { ids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    J.objectBegin();
    J.attribute("name", Fn.getName().str());
    J.attribute("dem", demangle(Fn.getName().str()));
    J.attribute("decl", Fn.isDeclaration());
    J.attribute("intrinsic", Fn.isIntrinsic());
    J.attribute("internal", Fn.hasLocalLinkage());
    J.attribute("linkonce", Fn.hasLinkOnceLinkage());
    J.attribute("vararg", Fn.isVarArg());
    J.attribute("noreturn", Fn.doesNotReturn());
    J.attribute("nounwind", Fn.doesNotThrow());
    J.attribute("ret", tystr(Fn.getReturnType()));
    json::Array args;
    for (auto &A : Fn.args()) args.push_back(json::Array{A.getName().str(), tystr(A.getType()), A.hasStructRetAttr(), A.hasByValAttr()});
    J.attribute("args", std::move(args));
    if (auto *SP = Fn.getSubprogram()) {
      J.attribute("file", (SP->getFile() ? SP->getFile()->getFilename().str() : "")); J.attribute("line", (int64_t)SP->getLine());
      J.attribute("src", SP->getName().str());
      if (SP->getScope() && isa<DIType>(SP->getScope())) J.attribute("cls", cast<DIType>(SP->getScope())->getName().str());
      { auto *D = SP->getDeclaration() ? SP->getDeclaration() : SP; auto A = D->getFlags() & DINode::FlagAccessibility;
        J.attribute("acc", A == DINode::FlagPublic ? "public" : A == DINode::FlagProtected ? "protected" : A == DINode::FlagPrivate ? "private" : "");
        J.attribute("artificial", D->isArtificial()); }
      json::Array ts; if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) ts.push_back(json::Array{dityname(t), dican(t)});
      J.attribute("ditypes", std::move(ts));
    }
    if (!Fn.isDeclaration()) {
      J.attributeBegin("blocks"); J.arrayBegin();
      for (auto &BB : Fn) {
        J.arrayBegin();
        for (auto &I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) {
            // variable name hints
            if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
              Value *V = DV->getNumVariableLocationOps() ? DV->getVariableLocationOp(0) : nullptr;
              if (V && ids.count(V)) { J.value(json::Array{-1, "dbg", ids[V], DV->getVariable()->getName().str(), dityname(DV->getVariable()->getType()), isa<DbgDeclareInst>(I)}); }
            }
            continue;
          }
          json::Object o;
          json::Array ops;
          o["i"] = ids[&I]; 
          o["op"] = I.getOpcodeName();
          if (!I.getType()->isVoidTy()) { o["t"] = tystr(I.getType()); o["sz"] = (int64_t)tysize(I.getType()); }
          if (auto &L = I.getDebugLoc()) {
            o["l"] = (int64_t)L.getLine();
            if (auto *S = dyn_cast_or_null<DIScope>(L.getScope())) if (Fn.getSubprogram() && S->getFile() && S->getFile() != Fn.getSubprogram()->getFile()) o["fl"] = S->getFile()->getFilename().str();
          }
          if (auto *GP = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> VO; APInt CO(64, 0);
            cast<GEPOperator>(GP)->collectOffset(*DL, 64, VO, CO);
            ops.push_back(operand(GP->getPointerOperand()));
            o["off"] = CO.getSExtValue();
            json::Array vs; for (auto &p : VO) vs.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
            o["var"] = std::move(vs);
            o["srcty"] = tystr(GP->getSourceElementType());
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) ops.push_back(json::Array{operand(P->getIncomingValue(i)), ids[P->getIncomingBlock(i)]});
          } else if (auto *C = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
            ops.push_back(operand(C->getOperand(0))); ops.push_back(operand(C->getOperand(1)));
            o["ct"] = tystr(C->getOperand(0)->getType());
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(operand(S->getCondition())); o["def"] = ids[S->getDefaultDest()];
            json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), ids[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) { ops.push_back(operand(B->getCondition())); o["s"] = json::Array{ids[B->getSuccessor(0)], ids[B->getSuccessor(1)]}; }
            else o["s"] = json::Array{ids[B->getSuccessor(0)]};
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o["callee"] = operand(CB->getCalledOperand());
            for (auto &a : CB->args()) ops.push_back(operand(a.get()));
            json::Array at; for (auto &a : CB->args()) at.push_back(tystr(a->getType()));
            o["at"] = std::move(at);
            json::Array bv; for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) bv.push_back(json::Array{(int64_t)i, (int64_t)tysize(CB->getParamByValType(i))});
            if (!bv.empty()) o["byval"] = std::move(bv);
            if (CB->doesNotReturn()) o["noret"] = true;
            if (CB->doesNotThrow()) o["nothrow"] = true;
            if (auto *II = dyn_cast<InvokeInst>(&I)) o["s"] = json::Array{ids[II->getNormalDest()], ids[II->getUnwindDest()]};
          } else if (auto *L = dyn_cast<LoadInst>(&I)) { ops.push_back(operand(L->getPointerOperand())); }
          else if (auto *St = dyn_cast<StoreInst>(&I)) { ops.push_back(operand(St->getValueOperand())); ops.push_back(operand(St->getPointerOperand()));
            o["st"] = tystr(St->getValueOperand()->getType()); o["ss"] = (int64_t)tysize(St->getValueOperand()->getType()); }
          else if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["at"] = tystr(AI->getAllocatedType()); o["asz"] = (int64_t)tysize(AI->getAllocatedType()); ops.push_back(operand(AI->getArraySize())); }
          else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { ops.push_back(operand(EV->getAggregateOperand())); json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
          else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { ops.push_back(operand(IV->getAggregateOperand())); ops.push_back(operand(IV->getInsertedValueOperand())); json::Array ix; for (auto i : IV->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
          else { for (auto &a : I.operands()) ops.push_back(operand(a.get())); }
          if (auto *CI = dyn_cast<CastInst>(&I)) o["ft"] = tystr(CI->getSrcTy());
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) o["nsw"] = true; }
          if (auto *LP = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = LP->isCleanup(); o["clauses"] = (int64_t)LP->getNumClauses(); bool all = false; for (unsigned i = 0; i < LP->getNumClauses(); i++) if (LP->isCatch(i) && isa<ConstantPointerNull>(LP->getClause(i))) all = true; o["catchall"] = all; }
          o["o"] = std::move(ops);
          J.value(std::move(o));
        }
        J.arrayEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
  OS << "\n";
  return 0;
}
