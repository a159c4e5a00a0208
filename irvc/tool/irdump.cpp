#include <regex>
#include "llvm/Demangle/Demangle.h"
// irdump: reads an LLVM module, prints as JSON every function definition reachable from the
// given roots (or all), in a normalised form (GEPs reduced to byte offsets, loop nest attached).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <set>
#include <map>
#include <deque>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::set<const GlobalVariable *> gvs;
static std::set<const Function *> fns;
static std::deque<const Function *> work;
static std::deque<const GlobalVariable *> gwork;

static J::Value ty(Type *T) {
  if (T->isVoidTy()) return "void";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (T->isX86_FP80Ty()) return "f80";
  if (T->isPointerTy()) return "ptr";
  if (auto *V = dyn_cast<FixedVectorType>(T)) return J::Array{"vec", (int64_t)V->getNumElements(), ty(V->getElementType())};
  if (auto *A = dyn_cast<ArrayType>(T)) return J::Array{"arr", (int64_t)A->getNumElements(), ty(A->getElementType()), (int64_t)DL->getTypeAllocSize(A->getElementType())};
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->isOpaque()) return "opaque";
    const StructLayout *SL = DL->getStructLayout(S);
    J::Array f;
    for (unsigned i = 0; i < S->getNumElements(); i++) f.push_back(J::Array{(int64_t)SL->getElementOffset(i), ty(S->getElementType(i))});
    return J::Array{"struct", std::move(f), (int64_t)SL->getSizeInBytes()};
  }
  if (T->isFunctionTy()) return "fn";
  if (T->isMetadataTy()) return "md";
  if (T->isTokenTy()) return "token";
  if (T->isLabelTy()) return "label";
  std::string s; raw_string_ostream o(s); T->print(o); return "?" + o.str();
}

static J::Value instJ(const User *I, unsigned opc, bool constexpr_);

static std::string apstr(const APInt &v) { SmallString<40> s; v.toStringSigned(s); return std::string(s.str()); }

static J::Value val(const Value *V) {
  if (auto *F = dyn_cast<Function>(V)) {
    if (fns.insert(F).second) work.push_back(F);
    return J::Array{"fn", F->getName().str()};
  }
  if (auto *G = dyn_cast<GlobalVariable>(V)) {
    if (gvs.insert(G).second) gwork.push_back(G);
    return J::Array{"g", G->getName().str()};
  }
  if (auto *A = dyn_cast<GlobalAlias>(V)) return val(A->getAliasee());
  if (auto *C = dyn_cast<ConstantInt>(V)) return J::Array{"i", apstr(C->getValue()), (int64_t)C->getBitWidth()};
  if (auto *C = dyn_cast<ConstantFP>(V)) {
    APFloat f = C->getValueAPF(); APInt bits = f.bitcastToAPInt();
    SmallString<40> s; bits.toStringUnsigned(s);
    return J::Array{"f", std::string(s.str()), (int64_t)bits.getBitWidth()};
  }
  if (isa<ConstantPointerNull>(V)) return J::Array{"null"};
  if (isa<UndefValue>(V)) return J::Array{"undef", ty(V->getType())};
  if (isa<ConstantAggregateZero>(V)) return J::Array{"zero", ty(V->getType())};
  if (auto *C = dyn_cast<ConstantDataSequential>(V)) {
    J::Array a; for (unsigned i = 0; i < C->getNumElements(); i++) a.push_back(val(C->getElementAsConstant(i)));
    return J::Array{"agg", std::move(a), ty(V->getType())};
  }
  if (auto *C = dyn_cast<ConstantAggregate>(V)) {
    J::Array a; for (unsigned i = 0; i < C->getNumOperands(); i++) a.push_back(val(C->getOperand(i)));
    return J::Array{"agg", std::move(a), ty(V->getType())};
  }
  if (auto *C = dyn_cast<ConstantExpr>(V)) return J::Array{"ce", instJ(C, C->getOpcode(), true)};
  if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return J::Array{"md"};
  auto it = ids.find(V);
  if (it != ids.end()) return J::Array{"r", it->second};
  return J::Array{"?", V->getName().str()};
}

static std::map<const BasicBlock *, int> bbid;

static J::Value instJ(const User *I, unsigned opc, bool ce) {
  J::Object o;
  o["op"] = Instruction::getOpcodeName(opc);
  o["ty"] = ty(I->getType());
  if (auto *G = dyn_cast<GEPOperator>(I)) {
    MapVector<Value *, APInt> vo; APInt co(64, 0);
    G->collectOffset(*DL, 64, vo, co);
    J::Array v; for (auto &p : vo) v.push_back(J::Array{p.second.getSExtValue(), val(p.first), ty(p.first->getType())});
    o["base"] = val(G->getPointerOperand()); o["off"] = co.getSExtValue(); o["var"] = std::move(v);
    return o;
  }
  J::Array ops;
  if (!ce) {
    const Instruction *X = cast<Instruction>(I);
    if (auto *D = X->getDebugLoc().get()) { o["ln"] = (int64_t)D->getLine(); o["fl"] = D->getFilename().str(); }
    if (auto *O = dyn_cast<OverflowingBinaryOperator>(X)) { if (O->hasNoSignedWrap()) o["nsw"] = true; if (O->hasNoUnsignedWrap()) o["nuw"] = true; }
    if (auto *C = dyn_cast<CmpInst>(X)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
    if (auto *A = dyn_cast<AllocaInst>(X)) { o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); o["n"] = val(A->getArraySize()); return o; }
    if (auto *P = dyn_cast<PHINode>(X)) {
      J::Array in; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (bbid.count(P->getIncomingBlock(i))) in.push_back(J::Array{bbid[P->getIncomingBlock(i)], val(P->getIncomingValue(i))});
      o["in"] = std::move(in); return o;
    }
    if (auto *B = dyn_cast<BranchInst>(X)) {
      if (B->isConditional()) o["cond"] = val(B->getCondition());
      J::Array s; for (unsigned i = 0; i < B->getNumSuccessors(); i++) s.push_back(bbid[B->getSuccessor(i)]); o["succ"] = std::move(s); return o;
    }
    if (auto *S = dyn_cast<SwitchInst>(X)) {
      o["cond"] = val(S->getCondition()); o["default"] = bbid[S->getDefaultDest()];
      J::Array cs; for (auto &c : S->cases()) cs.push_back(J::Array{val(c.getCaseValue()), bbid[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs); return o;
    }
    if (auto *C = dyn_cast<CallBase>(X)) {
      for (auto &a : C->args()) ops.push_back(val(a.get()));
      o["args"] = std::move(ops); o["callee"] = val(C->getCalledOperand());
      J::Array ats; for (auto &a : C->args()) ats.push_back(ty(a->getType())); o["atys"] = std::move(ats);
      if (auto *N = dyn_cast<InvokeInst>(X)) { o["normal"] = bbid[N->getNormalDest()]; o["unwind"] = bbid[N->getUnwindDest()]; }
      return o;
    }
    if (auto *L = dyn_cast<LandingPadInst>(X)) {
      o["cleanup"] = L->isCleanup(); J::Array cl;
      for (unsigned i = 0; i < L->getNumClauses(); i++) cl.push_back(J::Array{L->isCatch(i) ? "catch" : "filter", val(L->getClause(i))});
      o["clauses"] = std::move(cl); return o;
    }
    if (auto *E = dyn_cast<ExtractValueInst>(X)) { J::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
    if (auto *E = dyn_cast<InsertValueInst>(X)) { J::Array ix; for (auto i : E->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
    if (auto *S = dyn_cast<ShuffleVectorInst>(X)) { J::Array ix; for (auto i : S->getShuffleMask()) ix.push_back((int64_t)i); o["mask"] = std::move(ix); }
    if (auto *S = dyn_cast<StoreInst>(X)) { o["sty"] = ty(S->getValueOperand()->getType()); }
    if (auto *A = dyn_cast<AtomicRMWInst>(X)) o["rmw"] = AtomicRMWInst::getOperationName(A->getOperation()).str();
    if (auto *R = dyn_cast<ReturnInst>(X)) { if (R->getReturnValue()) o["v"] = val(R->getReturnValue()); return o; }
  } else {
    if (opc == Instruction::ICmp) o["pred"] = CmpInst::getPredicateName((CmpInst::Predicate)cast<ConstantExpr>(I)->getPredicate()).str();
  }
  for (auto &u : I->operands()) { if (isa<BasicBlock>(u.get())) continue; ops.push_back(val(u.get())); }
  if (I->getNumOperands() && !isa<BasicBlock>(I->getOperand(0))) o["oty"] = ty(I->getOperand(0)->getType());
  o["ops"] = std::move(ops);
  return o;
}

// irdump --prep in.ll out.ll regex...: keeps the functions whose demangled name matches out of line
static int prep(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[2], E, C);
  if (!M) { E.print(argv[0], errs()); return 1; }
  std::vector<std::regex> rs;
  for (int i = 4; i < argc; i++) rs.emplace_back(argv[i]);
  for (auto &F : *M) {
    std::string d = demangle(F.getName().str());
    for (auto &r : rs) if (std::regex_search(d, r)) {
      F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::InlineHint); F.addFnAttr(Attribute::NoInline);
      if (F.hasLocalLinkage()) F.setLinkage(GlobalValue::ExternalLinkage);
      break;
    }
  }
  std::error_code ec;
  raw_fd_ostream os(argv[3], ec);
  if (ec) return 1;
  M->print(os, nullptr);
  return 0;
}

int main(int argc, char **argv) {
  if (argc > 3 && std::string(argv[1]) == "--prep") return prep(argc, argv);
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  for (int i = 2; i < argc; i++) {
    Function *F = M->getFunction(argv[i]);
    if (!F) { errs() << "no function " << argv[i] << "\n"; return 1; }
    if (fns.insert(F).second) work.push_back(F);
  }
  if (argc == 2) for (auto &F : *M) if (!F.isDeclaration() && fns.insert(&F).second) work.push_back(&F);
  // static constructors are always included
  if (auto *G = M->getGlobalVariable("llvm.global_ctors")) { gvs.insert(G); gwork.push_back(G); }
  J::Object out, fo, go;
  J::Array decls;
  while (!work.empty() || !gwork.empty()) {
    if (!gwork.empty()) {
      auto *G = gwork.front(); gwork.pop_front();
      J::Object g; g["const"] = G->isConstant(); g["size"] = (int64_t)DL->getTypeAllocSize(G->getValueType()); g["ty"] = ty(G->getValueType());
      if (G->hasInitializer()) g["init"] = val(G->getInitializer());
      go[G->getName().str()] = std::move(g); continue;
    }
    const Function *F = work.front(); work.pop_front();
    if (F->isDeclaration()) { decls.push_back(F->getName().str()); continue; }
    ids.clear(); bbid.clear(); int n = 0;
    J::Object f; J::Array args;
    for (auto &a : F->args()) { ids[&a] = n; J::Array aj{n, ty(a.getType())};
      if (a.hasByValAttr()) aj.push_back((int64_t)DL->getTypeAllocSize(a.getParamByValType()));
      args.push_back(std::move(aj)); n++; }
    f["args"] = std::move(args); f["ret"] = ty(F->getReturnType());
    if (auto *SP = F->getSubprogram()) { f["file"] = SP->getFilename().str(); f["line"] = (int64_t)SP->getLine(); }
    DominatorTree DT(*const_cast<Function *>(F)); LoopInfo LI(DT);
    ReversePostOrderTraversal<const Function *> RPO(F);
    int b = 0;
    for (auto *B : RPO) bbid[B] = b++;
    for (auto *B : RPO) for (auto &I : *B) if (!I.getType()->isVoidTy()) ids[&I] = n++;
    J::Array blocks;
    for (auto *B : RPO) {
      J::Object bo; J::Array is, lp;
      std::vector<int> hs; for (Loop *L = LI.getLoopFor(B); L; L = L->getParentLoop()) hs.push_back(bbid[L->getHeader()]);
      for (auto it = hs.rbegin(); it != hs.rend(); ++it) lp.push_back(*it);
      bo["loops"] = std::move(lp);
      for (auto &I : *B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        J::Value v = instJ(&I, I.getOpcode(), false);
        if (!I.getType()->isVoidTy()) (*v.getAsObject())["id"] = ids[&I];
        is.push_back(std::move(v));
      }
      bo["ins"] = std::move(is); blocks.push_back(std::move(bo));
    }
    f["blocks"] = std::move(blocks);
    fo[F->getName().str()] = std::move(f);
  }
  out["functions"] = std::move(fo); out["globals"] = std::move(go); out["decls"] = std::move(decls);
  outs() << J::Value(std::move(out)) << "\n";
}
