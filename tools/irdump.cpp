// irdump: prints an LLVM module as JSON for the Python analyses.
//   irdump ir FILE.bc          instruction-level dump (functions, blocks, operands, debug lines)
//   irdump scev FILE.bc        loop facts from scalar evolution (trip counts, address recurrences, stored values)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include <map>
#include <set>
using namespace llvm;
using JV = json::Value;
using json::Array;
using json::Object;

static const DataLayout *DL;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream o(s);
  T->print(o, false, true);
  return o.str();
}

struct FnNum {
  std::map<const llvm::Value*, int> ids;
  std::map<const BasicBlock*, int> bbs;
};

static JV operand(const llvm::Value *V, FnNum &N);

static JV gepInfo(const GEPOperator *G, FnNum &N) {
  int64_t constOff = 0;
  Array vars;
  Type *cur = nullptr;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
    llvm::Value *idx = it.getOperand();
    Type *container = cur;
    cur = it.getIndexedType();
    if (StructType *ST = it.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      constOff += DL->getStructLayout(ST)->getElementOffset(f);
    } else {
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(idx)) {
        constOff += CI->getSExtValue() * (int64_t)sz;
      } else {
        int64_t n = container && isa<ArrayType>(container) ? (int64_t)container->getArrayNumElements() : -1;
        vars.push_back(Object{{"v", operand(idx, N)}, {"s", (int64_t)sz}, {"n", n}});
      }
    }
  }
  return Object{{"b", operand(G->getPointerOperand(), N)}, {"o", constOff}, {"vars", std::move(vars)}, {"st", tyStr(G->getSourceElementType())}};
}

static JV constData(const Constant *C, FnNum &N) {
  // flattened initializer: list of [offset, size, operand]
  return operand(C, N);
}

static void flatten(const Constant *C, uint64_t off, Array &out, FnNum &N) {
  Type *T = C->getType();
  if (auto *ST = dyn_cast<StructType>(T)) {
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      flatten(C->getAggregateElement(i), off + DL->getStructLayout(ST)->getElementOffset(i), out, N);
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    uint64_t n = AT->getNumElements();
    if (n > 4096) { out.push_back(Array{(int64_t)off, (int64_t)(es * n), Object{{"k", "big"}}}); return; }
    for (uint64_t i = 0; i < n; i++) flatten(C->getAggregateElement(i), off + i * es, out, N);
    return;
  }
  out.push_back(Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(T), operand(C, N)});
}

static JV operand(const llvm::Value *V, FnNum &N) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    SmallString<32> s; CI->getValue().toStringUnsigned(s);
    return Object{{"k", "i"}, {"v", s.str().str()}, {"w", (int64_t)CI->getBitWidth()}};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    APFloat f = CF->getValueAPF(); bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char buf[64]; snprintf(buf, sizeof buf, "%.17g", f.convertToDouble());
    return Object{{"k", "f"}, {"v", std::string(buf)}};
  }
  if (isa<ConstantPointerNull>(V)) return Object{{"k", "null"}};
  if (isa<PoisonValue>(V) || isa<UndefValue>(V)) return Object{{"k", "undef"}};
  if (auto *F = dyn_cast<Function>(V)) return Object{{"k", "fn"}, {"n", F->getName().str()}};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return Object{{"k", "g"}, {"n", G->getName().str()}};
  if (isa<ConstantAggregateZero>(V)) return Object{{"k", "zero"}, {"t", tyStr(V->getType())}};
  if (auto *A = dyn_cast<Argument>(V)) return Object{{"k", "a"}, {"n", (int64_t)A->getArgNo()}};
  if (auto *G = dyn_cast<GEPOperator>(V)) if (isa<Constant>(V)) return Object{{"k", "gep"}, {"gep", gepInfo(G, N)}};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    Array ops; for (auto &o : CE->operands()) ops.push_back(operand(o.get(), N));
    return Object{{"k", "ce"}, {"op", CE->getOpcodeName()}, {"ops", std::move(ops)}};
  }
  if (auto *CA = dyn_cast<ConstantAggregate>(V)) {
    Array ops; for (auto &o : CA->operands()) ops.push_back(operand(o.get(), N));
    return Object{{"k", "agg"}, {"ops", std::move(ops)}};
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(V)) {
    Array ops; for (unsigned i = 0; i < CD->getNumElements(); i++) ops.push_back(operand(CD->getElementAsConstant(i), N));
    return Object{{"k", "agg"}, {"ops", std::move(ops)}};
  }
  auto it = N.ids.find(V);
  if (it != N.ids.end()) return Object{{"k", "l"}, {"n", it->second}};
  return Object{{"k", "unk"}};
}

static JV fnTypeInfo(FunctionType *FT) {
  Array ps; for (Type *t : FT->params()) ps.push_back(tyStr(t));
  return Object{{"ret", tyStr(FT->getReturnType())}, {"params", std::move(ps)}, {"va", FT->isVarArg()}};
}

static std::string pathOf(const DILocation *L) { return L->getFilename().str(); }

static void locOf(const Instruction &I, Object &o) {
  if (const DebugLoc &D = I.getDebugLoc()) {
    const DILocation *L = D.get();
    o["ln"] = (int64_t)L->getLine();
    o["fl"] = pathOf(L);
  }
}

static JV dumpFunction(Function &F) {
  FnNum N; int n = 0;
  int b = 0;
  for (auto &BB : F) { N.bbs[&BB] = b++; for (auto &I : BB) N.ids[&I] = n++; }
  Array blocks;
  for (auto &BB : F) {
    Array insts;
    for (auto &I : BB) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Object o;
      o["id"] = N.ids[&I];
      o["op"] = I.getOpcodeName();
      o["t"] = tyStr(I.getType());
      if (I.getType()->isSized() && !I.getType()->isVoidTy()) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue();
      locOf(I, o);
      if (auto *PN = dyn_cast<PHINode>(&I)) {
        Array in;
        for (unsigned i = 0; i < PN->getNumIncomingValues(); i++)
          in.push_back(Array{N.bbs[PN->getIncomingBlock(i)], operand(PN->getIncomingValue(i), N)});
        o["in"] = std::move(in);
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        o["gep"] = gepInfo(cast<GEPOperator>(G), N);
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        Array args; Array byval;
        for (unsigned i = 0; i < C->arg_size(); i++) {
          args.push_back(operand(C->getArgOperand(i), N));
          if (C->isByValArgument(i)) byval.push_back(Array{(int64_t)i, (int64_t)DL->getTypeAllocSize(C->getParamByValType(i))});
        }
        o["args"] = std::move(args);
        if (byval.size()) o["byval"] = std::move(byval);
        if (C->arg_size() && C->paramHasAttr(0, Attribute::StructRet)) o["sret"] = true;
        o["callee"] = operand(C->getCalledOperand()->stripPointerCasts(), N);
        o["ft"] = fnTypeInfo(C->getFunctionType());
      } else {
        Array ops;
        for (auto &u : I.operands()) {
          if (isa<BasicBlock>(u.get())) continue;
          ops.push_back(operand(u.get(), N));
        }
        o["ops"] = std::move(ops);
        if (auto *IC = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(IC->getPredicate()).str(); o["opt"] = tyStr(IC->getOperand(0)->getType()); }
        if (auto *CI = dyn_cast<CastInst>(&I)) o["from"] = tyStr(CI->getSrcTy());
        if (auto *AI = dyn_cast<AllocaInst>(&I)) { o["at"] = tyStr(AI->getAllocatedType()); o["asz"] = (int64_t)DL->getTypeAllocSize(AI->getAllocatedType()); }
        if (auto *SI = dyn_cast<StoreInst>(&I)) { o["vt"] = tyStr(SI->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(SI->getValueOperand()->getType()).getFixedValue(); o["at"] = SI->isAtomic(); o["vol"] = SI->isVolatile(); if (SI->isAtomic()) o["ord"] = std::string(toIRString(SI->getOrdering())); }
        if (auto *LI = dyn_cast<LoadInst>(&I)) { o["at"] = LI->isAtomic(); o["vol"] = LI->isVolatile(); if (LI->isAtomic()) o["ord"] = std::string(toIRString(LI->getOrdering())); }
        if (auto *RI = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = std::string(toIRString(RI->getOrdering())); o["vt"] = tyStr(RI->getValOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(RI->getValOperand()->getType()).getFixedValue(); }
        if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = std::string(toIRString(CX->getSuccessOrdering())); }
        if (auto *FI = dyn_cast<FenceInst>(&I)) { o["ord"] = std::string(toIRString(FI->getOrdering())); }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (unsigned x : EV->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) { Array ix; for (unsigned x : IV->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
        if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          Array cs; for (auto &c : SW->cases()) cs.push_back(Array{operand(c.getCaseValue(), N), N.bbs[c.getCaseSuccessor()]});
          o["cases"] = std::move(cs); o["def"] = N.bbs[SW->getDefaultDest()];
        }
      }
      insts.push_back(std::move(o));
    }
    Array succ; for (auto *S : successors(&BB)) succ.push_back(N.bbs[S]);
    blocks.push_back(Object{{"id", N.bbs[&BB]}, {"name", BB.getName().str()}, {"insts", std::move(insts)}, {"succ", std::move(succ)}});
  }
  Array params;
  for (auto &A : F.args()) {
    Object p{{"name", A.getName().str()}, {"t", tyStr(A.getType())}};
    if (A.hasByValAttr()) { p["byval"] = tyStr(A.getParamByValType()); p["bsz"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()); }
    if (A.hasStructRetAttr()) { p["sret"] = tyStr(A.getParamStructRetType()); p["bsz"] = (int64_t)DL->getTypeAllocSize(A.getParamStructRetType()); }
    params.push_back(std::move(p));
  }
  Object f{{"name", F.getName().str()}, {"ret", tyStr(F.getReturnType())}, {"params", std::move(params)}, {"blocks", std::move(blocks)}, {"internal", F.hasInternalLinkage()}};
  if (auto *SP = F.getSubprogram()) {
    f["ln"] = (int64_t)SP->getLine(); f["fl"] = SP->getFilename().str();
    // source-level parameter types
    Array st;
    if (auto *T = SP->getType()) for (auto *E : T->getTypeArray()) {
      std::string s;
      const DIType *D = E; int depth = 0;
      while (D) {
        if (auto *DT = dyn_cast<DIDerivedType>(D)) {
          if (DT->getTag() == dwarf::DW_TAG_pointer_type) { depth++; D = DT->getBaseType(); if (!D) s = "void"; continue; }
          if (DT->getTag() == dwarf::DW_TAG_typedef) { s = DT->getName().str(); break; }
          D = DT->getBaseType(); continue;
        }
        s = D->getName().str(); if (s.empty() && isa<DISubroutineType>(D)) s = "fn"; break;
      }
      if (s.empty()) s = "void";
      st.push_back(s + std::string(depth, '*'));
    }
    f["st"] = std::move(st);
  }
  return f;
}

static int dumpIR(Module &M) {
  Array fns, decls, globals; Object structs;
  FnNum N;
  for (auto &F : M) {
    if (F.isDeclaration()) decls.push_back(F.getName().str());
    else fns.push_back(dumpFunction(F));
  }
  for (auto &G : M.globals()) {
    Object g{{"name", G.getName().str()}, {"t", tyStr(G.getValueType())}, {"sz", (int64_t)DL->getTypeAllocSize(G.getValueType())}, {"const", G.isConstant()}, {"internal", G.hasLocalLinkage()}};
    if (G.hasInitializer()) {
      if (auto *CDA = dyn_cast<ConstantDataArray>(G.getInitializer()); CDA && CDA->isString()) g["str"] = json::fixUTF8(CDA->getAsString());
      Array fl; flatten(G.getInitializer(), 0, fl, N); g["init"] = std::move(fl);
    }
    globals.push_back(std::move(g));
  }
  for (auto *ST : M.getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    Array el;
    for (unsigned i = 0; i < ST->getNumElements(); i++) el.push_back(Array{(int64_t)DL->getStructLayout(ST)->getElementOffset(i), tyStr(ST->getElementType(i))});
    structs[ST->getName().str()] = Object{{"size", (int64_t)DL->getTypeAllocSize(ST)}, {"el", std::move(el)}};
  }
  // source-level struct layouts (names of fields)
  Object dist;
  // collected from debug info: composite types
  std::set<const DICompositeType*> seen;
  std::vector<const DIType*> work;
  std::set<const Metadata*> visited;
  std::map<std::string,std::string> tdef;
  for (auto &F : M) if (auto *SP = F.getSubprogram()) if (auto *T = SP->getType()) for (auto *E : T->getTypeArray()) if (E) work.push_back(E);
  for (auto &G : M.globals()) { SmallVector<DIGlobalVariableExpression*, 2> es; G.getDebugInfo(es); for (auto *e : es) if (auto *t = e->getVariable()->getType()) work.push_back(t); }
  for (auto &F : M) for (auto &BB : F) for (auto &I : BB) if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) if (auto *t = DV->getVariable()->getType()) work.push_back(t);
  while (!work.empty()) {
    const DIType *D = work.back(); work.pop_back();
    if (!D || !visited.insert(D).second) continue;
    if (auto *DT = dyn_cast<DIDerivedType>(D)) {
      if (DT->getTag() == dwarf::DW_TAG_typedef) if (auto *CT = dyn_cast_or_null<DICompositeType>(DT->getBaseType())) {
        Array el; for (auto *m : CT->getElements()) if (auto *md = dyn_cast<DIDerivedType>(m)) el.push_back(Array{(int64_t)(md->getOffsetInBits() / 8), md->getName().str(), (int64_t)(md->getSizeInBits() / 8)});
        dist[DT->getName().str()] = Object{{"size", (int64_t)(CT->getSizeInBits() / 8)}, {"el", std::move(el)}, {"tag", CT->getName().str()}};
      }
      work.push_back(DT->getBaseType());
    } else if (auto *CT = dyn_cast<DICompositeType>(D)) {
      for (auto *m : CT->getElements()) if (auto *md = dyn_cast<DIType>(m)) work.push_back(md);
      if (CT->getBaseType()) work.push_back(CT->getBaseType());
    } else if (auto *ST = dyn_cast<DISubroutineType>(D)) {
      for (auto *t : ST->getTypeArray()) if (t) work.push_back(t);
    }
  }
  Object top{{"fns", std::move(fns)}, {"decls", std::move(decls)}, {"globals", std::move(globals)}, {"structs", std::move(structs)}, {"dist", std::move(dist)}};
  outs() << json::Value(std::move(top)) << "\n";
  return 0;
}

// ---------------------------------------------------------------- scalar evolution mode
struct Sc {
  ScalarEvolution &SE; FnNum &N; std::map<const Loop*, int> &lid;
  JV dump(const SCEV *S) {
    switch (S->getSCEVType()) {
    case scConstant: { SmallString<32> s; cast<SCEVConstant>(S)->getAPInt().toStringSigned(s); return Array{"c", s.str().str()}; }
    case scUnknown: { auto *U = cast<SCEVUnknown>(S); return Array{"u", operand(U->getValue(), N)}; }
    case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
      auto *C = cast<SCEVCastExpr>(S);
      const char *n = S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext" : S->getSCEVType() == scSignExtend ? "sext" : "p2i";
      return Array{n, (int64_t)SE.getTypeSizeInBits(S->getType()), dump(C->getOperand())};
    }
    case scAddRecExpr: {
      auto *A = cast<SCEVAddRecExpr>(S);
      Array a{"rec", lid[A->getLoop()]};
      for (auto *o : A->operands()) a.push_back(dump(o));
      return a;
    }
    case scUDivExpr: { auto *U = cast<SCEVUDivExpr>(S); return Array{"udiv", dump(U->getLHS()), dump(U->getRHS())}; }
    case scCouldNotCompute: return Array{"?"};
    default: {
      const char *n = "?";
      switch (S->getSCEVType()) { case scAddExpr: n = "add"; break; case scMulExpr: n = "mul"; break; case scUMaxExpr: n = "umax"; break; case scSMaxExpr: n = "smax"; break; case scUMinExpr: n = "umin"; break; case scSMinExpr: n = "smin"; break; case scSequentialUMinExpr: n = "useqmin"; break; case scVScale: n = "vscale"; break; default: break; }
      Array a{n};
      if (auto *NA = dyn_cast<SCEVNAryExpr>(S)) for (auto *o : NA->operands()) a.push_back(dump(o));
      return a;
    }
    }
  }
};

static int dumpScev(Module &M) {
  TargetLibraryInfoImpl TLII(Triple(M.getTargetTriple()));
  Array fns;
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    DominatorTree DT(F); LoopInfo LI(DT); AssumptionCache AC(F); TargetLibraryInfo TLI(TLII);
    ScalarEvolution SE(F, TLI, AC, DT, LI);
    JV base = dumpFunction(F);
    FnNum N; int n = 0, b = 0;
    for (auto &BB : F) { N.bbs[&BB] = b++; for (auto &I : BB) N.ids[&I] = n++; }
    std::map<const Loop*, int> lid; int l = 0;
    for (auto *L : LI.getLoopsInPreorder()) lid[L] = l++;
    Sc sc{SE, N, lid};
    Array loops;
    for (auto *L : LI.getLoopsInPreorder()) {
      Array blocks; for (auto *B : L->blocks()) blocks.push_back(N.bbs[B]);
      const SCEV *BE = SE.getBackedgeTakenCount(L);
      const SCEV *MX = SE.getSymbolicMaxBackedgeTakenCount(L);
      Object lo{{"id", lid[L]}, {"header", N.bbs[L->getHeader()]}, {"blocks", std::move(blocks)}, {"be", sc.dump(BE)}, {"max", sc.dump(MX)}, {"depth", (int64_t)L->getLoopDepth()}};
      if (L->getParentLoop()) lo["parent"] = lid[L->getParentLoop()];
      if (auto *H = L->getHeader()) for (auto &I : *H) if (I.getDebugLoc()) { locOf(I, lo); break; }
      Array phis;
      for (auto &P : L->getHeader()->phis()) {
        Object po{{"id", N.ids[&P]}, {"t", tyStr(P.getType())}};
        if (SE.isSCEVable(P.getType())) po["scev"] = sc.dump(SE.getSCEV(&P));
        phis.push_back(std::move(po));
      }
      lo["phis"] = std::move(phis);
      Array exits; SmallVector<BasicBlock*, 4> ex; L->getExitingBlocks(ex); for (auto *B : ex) exits.push_back(Array{N.bbs[B], sc.dump(SE.getExitCount(L, B))});
      lo["exits"] = std::move(exits);
      loops.push_back(std::move(lo));
    }
    Array scevs;
    for (auto &BB : F) for (auto &I : BB) {
      llvm::Value *P = nullptr;
      if (auto *LD = dyn_cast<LoadInst>(&I)) P = LD->getPointerOperand();
      if (auto *ST = dyn_cast<StoreInst>(&I)) P = ST->getPointerOperand();
      Object o;
      if (P) o["ptr"] = sc.dump(SE.getSCEV(P));
      if (SE.isSCEVable(I.getType()) && !I.getType()->isVoidTy()) o["val"] = sc.dump(SE.getSCEV(&I));
      if (auto *MI = dyn_cast<MemIntrinsic>(&I)) { o["dst"] = sc.dump(SE.getSCEV(MI->getRawDest())); o["len"] = sc.dump(SE.getSCEV(MI->getLength())); if (auto *MT = dyn_cast<MemTransferInst>(MI)) o["src"] = sc.dump(SE.getSCEV(MT->getRawSource())); }
      if (o.empty()) continue;
      o["id"] = N.ids[&I];
      Loop *L = LI.getLoopFor(&BB);
      o["loop"] = L ? lid[L] : -1;
      scevs.push_back(std::move(o));
    }
    Object *fo = base.getAsObject();
    (*fo)["loops"] = std::move(loops);
    (*fo)["scev"] = std::move(scevs);
    fns.push_back(std::move(base));
  }
  outs() << json::Value(Object{{"fns", std::move(fns)}}) << "\n";
  return 0;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump ir|scev FILE.bc\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[2], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  if (std::string(argv[1]) == "scev") return dumpScev(*M);
  return dumpIR(*M);
}
