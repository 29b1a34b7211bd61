// irdump: mechanical extraction of the real code.
// Reads LLVM bitcode files (the compiled harness + the real /repo sources), links them, runs a fixed list of
// semantics-preserving clean-up passes (mem2reg/sroa, simplifycfg ...), and writes every function reachable from the
// roots as JSON, with GEPs and types resolved to byte offsets.
// usage: irdump OUT.json ROOTPREFIX in1.bc [in2.bc ...]
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/CommandLine.h>
#include <map>
#include <set>
#include <deque>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;
static std::map<const Value*, int> ids;
static std::deque<const GlobalValue*> work;
static std::set<const GlobalValue*> seen;
static std::map<std::string, int> files;
static std::vector<std::string> filev;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string ty(Type* t) {
  if (t->isIntegerTy()) return "\"i" + std::to_string(t->getIntegerBitWidth()) + "\"";
  if (t->isDoubleTy()) return "\"f64\"";
  if (t->isFloatTy()) return "\"f32\"";
  if (t->isX86_FP80Ty()) return "\"f80\"";
  if (t->isPointerTy()) return "\"ptr\"";
  if (t->isVoidTy()) return "\"void\"";
  if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) return "\"opaque\"";
    auto* L = DL->getStructLayout(s);
    std::string r = "[\"s\",[";
    for (unsigned i = 0; i < s->getNumElements(); i++) r += (i ? "," : "") + ty(s->getElementType(i));
    r += "],[";
    for (unsigned i = 0; i < s->getNumElements(); i++) r += (i ? "," : "") + std::to_string((uint64_t)L->getElementOffset(i));
    return r + "]," + std::to_string((uint64_t)L->getSizeInBytes()) + "]";
  }
  if (auto* a = dyn_cast<ArrayType>(t)) return "[\"a\"," + std::to_string(a->getNumElements()) + "," + ty(a->getElementType()) + "," + std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType())) + "]";
  if (auto* a = dyn_cast<FixedVectorType>(t)) return "[\"v\"," + std::to_string(a->getNumElements()) + "," + ty(a->getElementType()) + "," + std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType())) + "]";
  return "\"other\"";
}
static void need(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { g = a->getAliaseeObject(); if (!g) return; }
  if (seen.insert(g).second) work.push_back(g);
}
static std::string cst(const Constant* c);
static std::string op(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return cst(c);
  if (isa<MetadataAsValue>(v)) return "[\"md\"]";
  if (isa<InlineAsm>(v)) return "[\"asm\"]";
  if (auto* b = dyn_cast<BasicBlock>(v)) return std::to_string(ids[b]);
  return std::to_string(ids[v]);
}
static std::string hexd(const APFloat& f) {
  APInt b = f.bitcastToAPInt();
  SmallString<40> s; b.toString(s, 16, false);
  return std::string(s.str());
}
static std::string cst(const Constant* c) {
  if (auto* g = dyn_cast<GlobalAlias>(c)) { auto* a = g->getAliaseeObject(); need(a); return "[\"g\"," + esc(a->getName()) + ",0]"; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { need(g); return "[\"g\"," + esc(g->getName()) + ",0]"; }
  if (auto* i = dyn_cast<ConstantInt>(c)) { SmallString<40> s; i->getValue().toString(s, 10, false); return "[\"i\"," + std::to_string(i->getBitWidth()) + ",\"" + std::string(s.str()) + "\"]"; }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    if (f->getType()->isDoubleTy()) return "[\"d\",\"" + hexd(f->getValueAPF()) + "\"]";
    if (f->getType()->isFloatTy()) return "[\"f\",\"" + hexd(f->getValueAPF()) + "\"]";
    if (f->getType()->isX86_FP80Ty()) { APFloat a = f->getValueAPF(); bool l; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return "[\"d\",\"" + hexd(a) + "\"]"; }
  }
  if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
  if (isa<UndefValue>(c)) return "[\"u\"," + ty(c->getType()) + "]";
  if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + ty(c->getType()) + "]";
  if (isa<ConstantAggregate>(c)) {
    std::string r = "[\"agg\"," + ty(c->getType()) + ",[";
    for (unsigned i = 0; i < c->getNumOperands(); i++) r += (i ? "," : "") + cst(cast<Constant>(c->getOperand(i)));
    return r + "]]";
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) { return "[\"str\"," + esc(d->getAsString()) + "]"; }
    std::string r = "[\"agg\"," + ty(c->getType()) + ",[";
    for (unsigned i = 0; i < d->getNumElements(); i++) r += (i ? "," : "") + cst(d->getElementAsConstant(i));
    return r + "]]";
  }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) {
        std::string b = cst(cast<Constant>(g->getPointerOperand()));
        return "[\"goff\"," + b + "," + std::to_string(off.getSExtValue()) + "]";
      }
    }
    std::string r = "[\"ce\"," + esc(e->getOpcodeName()) + "," + ty(e->getType()) + ",[";
    for (unsigned i = 0; i < e->getNumOperands(); i++) r += (i ? "," : "") + cst(e->getOperand(i));
    return r + "]]";
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  return "[\"unk\"," + esc(s) + "]";
}
static int fileId(const std::string& f) {
  auto it = files.find(f);
  if (it != files.end()) return it->second;
  int n = filev.size(); files[f] = n; filev.push_back(f); return n;
}
static void dumpFn(const Function& F) {
  ids.clear();
  int n = 0, b = 0;
  for (auto& a : F.args()) ids[&a] = n++;
  for (auto& B : F) { ids[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
  *O << esc(F.getName()) << ":{\"dn\":" << esc(demangle(F.getName().str())) << ",\"n\":" << n << ",\"ret\":" << ty(F.getReturnType()) << ",\"params\":[";
  bool first = true;
  for (auto& a : F.args()) {
    *O << (first ? "" : ",") << "[" << ids[&a] << "," << ty(a.getType());
    if (a.hasByValAttr()) *O << ",[\"byval\"," << (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) << "]";
    *O << "]"; first = false;
  }
  *O << "],\"blocks\":[";
  bool fb = true;
  for (auto& B : F) {
    *O << (fb ? "" : ",\n") << "["; fb = false;
    bool fi = true;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      *O << (fi ? "" : ",") ; fi = false;
      int dlf = -1, dll = 0;
      if (auto dl = I.getDebugLoc()) { auto* s = cast<DIScope>(dl.getScope()); dlf = fileId((s->getFilename().startswith("/") ? std::string("") : s->getDirectory().str() + "/") + s->getFilename().str()); dll = dl.getLine(); }
      int id = I.getType()->isVoidTy() ? -1 : ids[&I];
      *O << "[\"";
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        *O << "gep\"," << id << "," << dlf << "," << dll << "," << op(g->getPointerOperand()) << ",";
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) { *O << "0,\"unk\"]"; continue; }
        *O << co.getSExtValue() << ",[";
        bool f2 = true;
        for (auto& p : vo) { *O << (f2 ? "" : ",") << "[" << op(p.first) << "," << p.second.getSExtValue() << "," << p.first->getType()->getIntegerBitWidth() << "]"; f2 = false; }
        *O << "]]"; continue;
      }
      if (auto* a = dyn_cast<AllocaInst>(&I)) { *O << "alloca\"," << id << "," << dlf << "," << dll << "," << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << "," << op(a->getArraySize()) << "," << esc(a->getName()) << "]"; continue; }
      if (auto* l = dyn_cast<LoadInst>(&I)) { *O << "load\"," << id << "," << dlf << "," << dll << "," << ty(l->getType()) << "," << op(l->getPointerOperand()) << "]"; continue; }
      if (auto* s = dyn_cast<StoreInst>(&I)) { *O << "store\"," << id << "," << dlf << "," << dll << "," << ty(s->getValueOperand()->getType()) << "," << op(s->getValueOperand()) << "," << op(s->getPointerOperand()) << "]"; continue; }
      if (auto* c = dyn_cast<ICmpInst>(&I)) { *O << "icmp\"," << id << "," << dlf << "," << dll << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\"," << ty(c->getOperand(0)->getType()) << "," << op(c->getOperand(0)) << "," << op(c->getOperand(1)) << "]"; continue; }
      if (auto* c = dyn_cast<FCmpInst>(&I)) { *O << "fcmp\"," << id << "," << dlf << "," << dll << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\"," << op(c->getOperand(0)) << "," << op(c->getOperand(1)) << "]"; continue; }
      if (auto* p = dyn_cast<PHINode>(&I)) {
        *O << "phi\"," << id << "," << dlf << "," << dll << "," << ty(p->getType()) << ",[";
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) *O << (i ? "," : "") << "[" << op(p->getIncomingValue(i)) << "," << ids[p->getIncomingBlock(i)] << "]";
        *O << "]]"; continue;
      }
      if (auto* br = dyn_cast<BranchInst>(&I)) {
        *O << "br\"," << id << "," << dlf << "," << dll << ",";
        if (br->isConditional()) *O << op(br->getCondition()) << "," << ids[br->getSuccessor(0)] << "," << ids[br->getSuccessor(1)] << "]";
        else *O << "null," << ids[br->getSuccessor(0)] << "]";
        continue;
      }
      if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        *O << "switch\"," << id << "," << dlf << "," << dll << "," << op(sw->getCondition()) << "," << ids[sw->getDefaultDest()] << ",[";
        bool f2 = true;
        for (auto& c : sw->cases()) { SmallString<40> s; c.getCaseValue()->getValue().toString(s, 10, false); *O << (f2 ? "" : ",") << "[\"" << s << "\"," << ids[c.getCaseSuccessor()] << "]"; f2 = false; }
        *O << "]," << sw->getCondition()->getType()->getIntegerBitWidth() << "]"; continue;
      }
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        const Value* cv = cb->getCalledOperand()->stripPointerCasts();
        *O << "call\"," << id << "," << dlf << "," << dll << "," << ty(cb->getType()) << "," << op(cv) << ",[";
        for (unsigned i = 0; i < cb->arg_size(); i++) *O << (i ? "," : "") << "[" << op(cb->getArgOperand(i)) << "," << ty(cb->getArgOperand(i)->getType()) << "]";
        *O << "],";
        if (auto* iv = dyn_cast<InvokeInst>(cb)) *O << ids[iv->getNormalDest()] << "," << ids[iv->getUnwindDest()]; else *O << "-1,-1";
        *O << "]"; continue;
      }
      if (auto* e = dyn_cast<ExtractValueInst>(&I)) { *O << "extractvalue\"," << id << "," << dlf << "," << dll << "," << op(e->getAggregateOperand()) << ",["; bool f2 = true; for (unsigned x : e->indices()) { *O << (f2 ? "" : ",") << x; f2 = false; } *O << "]]"; continue; }
      if (auto* e = dyn_cast<InsertValueInst>(&I)) { *O << "insertvalue\"," << id << "," << dlf << "," << dll << "," << op(e->getAggregateOperand()) << "," << op(e->getInsertedValueOperand()) << ",["; bool f2 = true; for (unsigned x : e->indices()) { *O << (f2 ? "" : ",") << x; f2 = false; } *O << "]," << ty(e->getType()) << "]"; continue; }
      if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { *O << "shufflevector\"," << id << "," << dlf << "," << dll << "," << op(sv->getOperand(0)) << "," << op(sv->getOperand(1)) << ",["; bool f2 = true; for (int x : sv->getShuffleMask()) { *O << (f2 ? "" : ",") << x; f2 = false; } *O << "]]"; continue; }
      if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        bool nsw = false, nuw = false;
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(bo)) { nsw = ob->hasNoSignedWrap(); nuw = ob->hasNoUnsignedWrap(); }
        *O << bo->getOpcodeName() << "\"," << id << "," << dlf << "," << dll << "," << ty(bo->getType()) << "," << op(bo->getOperand(0)) << "," << op(bo->getOperand(1)) << "," << (nsw ? 1 : 0) << "," << (nuw ? 1 : 0) << "]"; continue;
      }
      if (auto* rw = dyn_cast<AtomicRMWInst>(&I)) { *O << "atomicrmw\"," << id << "," << dlf << "," << dll << "," << esc(AtomicRMWInst::getOperationName(rw->getOperation())) << "," << ty(rw->getType()) << "," << op(rw->getPointerOperand()) << "," << op(rw->getValOperand()) << "]"; continue; }
      if (auto* ca = dyn_cast<CastInst>(&I)) { *O << "cast\"," << id << "," << dlf << "," << dll << ",\"" << ca->getOpcodeName() << "\"," << ty(ca->getSrcTy()) << "," << ty(ca->getDestTy()) << "," << op(ca->getOperand(0)) << "]"; continue; }
      // generic: ret, select, fneg, freeze, unreachable, resume, landingpad, cmpxchg, ...
      *O << I.getOpcodeName() << "\"," << id << "," << dlf << "," << dll << "," << ty(I.getType());
      for (unsigned i = 0; i < I.getNumOperands(); i++) *O << "," << op(I.getOperand(i));
      *O << "]";
    }
    *O << "]";
  }
  *O << "]}";
}
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  { const char* a[] = {"irdump", "-two-entry-phi-node-folding-threshold=40", "-speculate-one-expensive-inst=true"}; cl::ParseCommandLineOptions(3, a); }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[3], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  Linker L(*M);
  for (int i = 4; i < argc; i++) { auto X = parseIRFile(argv[i], E, C); if (!X) { E.print("irdump", errs()); return 2; } if (L.linkInModule(std::move(X), i == argc - 1 ? Linker::Flags::OverrideFromSrc : Linker::Flags::None)) return 2; }
  for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    const char* pl = getenv("IRDUMP_PASSES"); if (!pl) pl = "function(sroa,simplifycfg,early-cse,simplifycfg,dce)";
    if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream OS(argv[1], EC); O = &OS;
  std::string pre = argv[2];
  std::vector<std::string> roots;
  for (auto& F : *M) if (!F.isDeclaration() && F.getName().startswith(pre)) { roots.push_back(F.getName().str()); need(&F); }
  std::string ctors;
  if (auto* G = M->getNamedGlobal("llvm.global_ctors")) {
    if (G->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
      for (auto& o : CA->operands()) { auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)); if (f) { need(f); ctors += (ctors.empty() ? "" : ",") + esc(f->getName()); } }
  }
  OS << "{\"roots\":[";
  for (size_t i = 0; i < roots.size(); i++) OS << (i ? "," : "") << esc(roots[i]);
  OS << "],\"ctors\":[" << ctors << "],\"funcs\":{\n";
  std::vector<const GlobalVariable*> gv; std::vector<const Function*> decl;
  std::map<const GlobalVariable*, std::string> ginit;
  bool first = true;
  while (!work.empty()) {
    auto* g = work.front(); work.pop_front();
    if (auto* f = dyn_cast<Function>(g)) {
      if (f->isDeclaration()) { decl.push_back(f); continue; }
      if (!first) OS << ",\n"; first = false; dumpFn(*f);
    } else if (auto* v = dyn_cast<GlobalVariable>(g)) { gv.push_back(v); if (v->hasInitializer()) ginit[v] = cst(v->getInitializer()); }
  }
  OS << "},\"globals\":{\n";
  for (size_t i = 0; i < gv.size(); i++) {
    auto* v = gv[i];
    OS << (i ? ",\n" : "") << esc(v->getName()) << ":{\"size\":" << (uint64_t)(v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()).getFixedValue() : 0) << ",\"const\":" << (v->isConstant() ? 1 : 0) << ",\"ty\":" << ty(v->getValueType()) << ",\"init\":" << (v->hasInitializer() ? ginit[v] : "null") << "}";
  }
  OS << "},\"decls\":{";
  for (size_t i = 0; i < decl.size(); i++) OS << (i ? "," : "") << esc(decl[i]->getName()) << ":" << esc(demangle(decl[i]->getName().str()));
  OS << "},\"files\":[";
  for (size_t i = 0; i < filev.size(); i++) OS << (i ? "," : "") << esc(filev[i]);
  OS << "]}\n";
  return 0;
}
