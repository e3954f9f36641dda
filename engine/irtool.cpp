// irtool: loads LLVM bitcode, runs a fixed simplification pipeline (with a list of
// functions kept out of line), and writes a JSON description of every function body,
// global initialiser, record layout and enumeration.  It never executes the code.
#include "llvm/ADT/APInt.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static json::Value opnd(const Value *v);
static std::map<const Value *, int> ids;
static const DataLayout *DL;
static std::string tystr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }
static json::Value apint(const APInt &a) { SmallString<40> s; a.toString(s, 10, false); return json::Value(std::string(s)); }
static json::Value gepObj(const GEPOperator *g) {
  unsigned bw = DL->getIndexSizeInBits(g->getPointerAddressSpace());
  MapVector<Value *, APInt> var; APInt off(bw, 0);
  json::Object o; o["op"] = "gep"; o["base"] = opnd(g->getPointerOperand());
  if (!g->collectOffset(*DL, bw, var, off)) { o["bad"] = true; return o; }
  o["off"] = off.getSExtValue();
  json::Array idx;
  for (auto &p : var) idx.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
  o["idx"] = std::move(idx);
  return o;
}
static json::Value opnd(const Value *v) {
  json::Object o;
  if (auto *f = dyn_cast<Function>(v)) { o["k"] = "f"; o["n"] = f->getName().str(); return o; }
  if (auto *g = dyn_cast<GlobalValue>(v)) { o["k"] = "g"; o["n"] = g->getName().str(); return o; }
  if (auto *c = dyn_cast<ConstantInt>(v)) { o["k"] = "c"; o["w"] = (int64_t)c->getBitWidth(); o["v"] = apint(c->getValue()); return o; }
  if (isa<ConstantPointerNull>(v)) { o["k"] = "null"; return o; }
  if (isa<UndefValue>(v)) { o["k"] = "undef"; o["t"] = tystr(v->getType()); return o; }
  if (auto *c = dyn_cast<ConstantAggregateZero>(v)) { o["k"] = "zero"; o["t"] = tystr(c->getType()); return o; }
  if (auto *c = dyn_cast<ConstantDataVector>(v)) {
    o["k"] = "vec"; json::Array a; for (unsigned i = 0; i < c->getNumElements(); ++i) a.push_back(opnd(c->getElementAsConstant(i)));
    o["e"] = std::move(a); return o; }
  if (auto *c = dyn_cast<ConstantAggregate>(v)) {
    o["k"] = "vec"; json::Array a; for (unsigned i = 0; i < c->getNumOperands(); ++i) a.push_back(opnd(c->getOperand(i)));
    o["e"] = std::move(a); return o; }
  if (auto *c = dyn_cast<ConstantFP>(v)) { o["k"] = "fp"; SmallString<32> s; c->getValueAPF().toString(s); o["v"] = std::string(s); return o; }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { o["k"] = "cgep"; o["g"] = gepObj(g); return o; }
    o["k"] = "cexpr"; o["o"] = ce->getOpcodeName(); json::Array a; for (auto &u : ce->operands()) a.push_back(opnd(u.get())); o["e"] = std::move(a); return o; }
  if (isa<MetadataAsValue>(v)) { o["k"] = "md"; return o; }
  auto it = ids.find(v);
  if (it != ids.end()) { o["k"] = "v"; o["id"] = it->second; return o; }
  o["k"] = "other"; o["t"] = tystr(v->getType()); return o;
}
static json::Array locs(const DebugLoc &d) {
  json::Array a;
  const DILocation *l = d.get();
  int n = 0;
  while (l && n++ < 12) { a.push_back(l->getFilename().str() + ":" + std::to_string(l->getLine())); l = l->getInlinedAt(); }
  return a;
}
static bool flat(const Constant *c, std::string &out) {
  Type *t = c->getType(); uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { out.append(sz, '\0'); return true; }
  if (auto *i = dyn_cast<ConstantInt>(c)) { APInt a = i->getValue(); std::string s(sz, '\0'); APInt w = a.zext(std::max<unsigned>(sz * 8, a.getBitWidth())); for (uint64_t k = 0; k < sz; ++k) s[k] = (char)w.extractBitsAsZExtValue(8, k * 8); out += s; return true; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); std::string s(sz, '\0'); for (uint64_t k = 0; k < sz && k * 8 + 8 <= a.getBitWidth(); ++k) s[k] = (char)a.extractBitsAsZExtValue(8, k * 8); out += s; return true; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); ++i) if (!flat(d->getElementAsConstant(i), out)) return false; return true; }
  if (auto *a = dyn_cast<ConstantArray>(c)) { for (auto &u : a->operands()) if (!flat(cast<Constant>(u.get()), out)) return false; return true; }
  if (auto *a = dyn_cast<ConstantVector>(c)) { for (auto &u : a->operands()) if (!flat(cast<Constant>(u.get()), out)) return false; return true; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(s->getType()); size_t base = out.size();
    for (unsigned i = 0; i < s->getNumOperands(); ++i) { uint64_t off = sl->getElementOffset(i); if (out.size() < base + off) out.append(base + off - out.size(), '\0'); if (!flat(s->getOperand(i), out)) return false; }
    if (out.size() < base + sz) out.append(base + sz - out.size(), '\0');
    return true; }
  return false;
}
static std::string ditype(const DIType *t, int depth = 0) {
  if (!t) return "void"; if (depth > 12) return "?";
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = ditype(c->getBaseType(), depth + 1);
      for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) { auto n = sr->getCount(); if (auto *ci = n.dyn_cast<ConstantInt *>()) s += "[" + std::to_string(ci->getSExtValue()) + "]"; else s += "[?]"; }
      return s; }
    return c->getName().empty() ? "<anon>" : c->getName().str(); }
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    std::string s = ditype(d->getBaseType(), depth + 1);
    switch (d->getTag()) { case dwarf::DW_TAG_pointer_type: return s + "*"; case dwarf::DW_TAG_reference_type: return s + "&"; case dwarf::DW_TAG_rvalue_reference_type: return s + "&&"; case dwarf::DW_TAG_const_type: return s; case dwarf::DW_TAG_volatile_type: return s; case dwarf::DW_TAG_typedef: return s; case dwarf::DW_TAG_atomic_type: return s; default: return d->getName().str(); } }
  return "?";
}
static json::Array members(const DICompositeType *c, uint64_t baseBits, int depth) {
  json::Array a; if (depth > 6) return a;
  for (auto *e : c->getElements()) {
    auto *d = dyn_cast_or_null<DIDerivedType>(e);
    if (!d) continue;
    if (d->getTag() == dwarf::DW_TAG_inheritance) { if (auto *b = dyn_cast_or_null<DICompositeType>(d->getBaseType())) for (auto &m : members(b, baseBits + d->getOffsetInBits(), depth + 1)) a.push_back(m); continue; }
    if (d->getTag() != dwarf::DW_TAG_member || d->isStaticMember()) continue;
    const DIType *bt = d->getBaseType();
    if (d->getName().empty()) { if (auto *b = dyn_cast_or_null<DICompositeType>(bt)) { for (auto &m : members(b, baseBits + d->getOffsetInBits(), depth + 1)) a.push_back(m); continue; } }
    json::Object o; o["name"] = d->getName().str(); o["off"] = (int64_t)(baseBits + d->getOffsetInBits()); o["bits"] = (int64_t)d->getSizeInBits(); o["type"] = ditype(bt); if (d->isBitField()) o["bitfield"] = true;
    a.push_back(std::move(o));
  }
  return a;
}
static bool onlyRead(const Value *V, int d) {
  if (d > 6) return false;
  for (const User *U : V->users()) {
    if (isa<LoadInst>(U)) continue;
    if (isa<GetElementPtrInst>(U) || isa<ConstantExpr>(U)) { if (onlyRead(U, d + 1)) continue; return false; }
    return false;
  }
  return true;
}
int main(int argc, char **argv) {
  // irtool OUT.json PIPELINE NOINLINE_REGEX FNREGEX in.bc...
  if (argc < 6) { errs() << "usage: irtool OUT PIPELINE NOINLINE_RE FN_RE in.bc...\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 5; i < argc; ++i) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irtool", errs()); return 2; }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  DL = &M->getDataLayout();
  Regex keep(argv[3]), fnre(argv[4]);
  for (Function &F : *M) {
    std::string dn = demangle(F.getName().str());
    if (std::string(argv[3]) != "" && keep.match(dn)) { F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::OptimizeNone); F.addFnAttr(Attribute::NoInline); }
    F.removeFnAttr(Attribute::OptimizeNone);
  }
  std::string pl = argv[2];
  if (pl != "none") {
    PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopInterleaving = false; PassBuilder PB(nullptr, PTO); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; ModulePassManager MPM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  json::Object root; json::Object fns;
  for (Function &F : *M) {
    std::string dn = demangle(F.getName().str());
    json::Object fo; fo["dem"] = dn; fo["decl"] = F.isDeclaration(); fo["nounwind"] = F.doesNotThrow(); fo["ret"] = tystr(F.getReturnType()); fo["noreturn"] = F.doesNotReturn(); fo["local"] = F.hasLocalLinkage();
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
    if (!F.isDeclaration() && fnre.match(dn)) {
      ids.clear(); int n = 0; json::Array args;
      for (Argument &A : F.args()) { ids[&A] = n++; json::Object ao; ao["id"] = ids[&A]; ao["t"] = tystr(A.getType()); ao["sret"] = A.hasStructRetAttr(); if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()); args.push_back(std::move(ao)); }
      std::map<const BasicBlock *, int> bid; int bn = 0; for (BasicBlock &B : F) { bid[&B] = bn++; for (Instruction &I : B) ids[&I] = n++; }
      json::Array blocks;
      for (BasicBlock &B : F) {
        json::Array ins;
        for (Instruction &I : B) {
          if (isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) continue;
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) if (ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
          json::Object o; o["id"] = ids[&I]; o["op"] = I.getOpcodeName(); o["t"] = tystr(I.getType());
          if (I.getType()->isSized()) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType());
          auto L = locs(I.getDebugLoc()); if (!L.empty()) o["loc"] = std::move(L);
          if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { json::Value gv = gepObj(cast<GEPOperator>(g)); for (auto &kv : *gv.getAsObject()) o[kv.first] = kv.second; }
          else if (auto *p = dyn_cast<PHINode>(&I)) { json::Array a; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) a.push_back(json::Array{bid[p->getIncomingBlock(k)], opnd(p->getIncomingValue(k))}); o["in"] = std::move(a); }
          else if (auto *br = dyn_cast<BranchInst>(&I)) { json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); ++k) s.push_back(bid[br->getSuccessor(k)]); o["succ"] = std::move(s); if (br->isConditional()) o["cond"] = opnd(br->getCondition()); }
          else if (auto *sw = dyn_cast<SwitchInst>(&I)) { o["cond"] = opnd(sw->getCondition()); o["def"] = bid[sw->getDefaultDest()]; json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{apint(c.getCaseValue()->getValue()), bid[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); }
          else if (auto *cb = dyn_cast<CallBase>(&I)) {
            o["callee"] = opnd(cb->getCalledOperand()->stripPointerCasts()); json::Array a; for (auto &u : cb->args()) a.push_back(opnd(u.get())); o["ops"] = std::move(a); o["nounwind"] = cb->doesNotThrow();
            if (auto *iv = dyn_cast<InvokeInst>(&I)) o["succ"] = json::Array{bid[iv->getNormalDest()], bid[iv->getUnwindDest()]};
          } else {
            json::Array a; for (auto &u : I.operands()) a.push_back(opnd(u.get())); o["ops"] = std::move(a);
            if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            if (auto *al = dyn_cast<AllocaInst>(&I)) { o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); o["at"] = tystr(al->getAllocatedType()); }
            if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { json::Array m; for (int x : sv->getShuffleMask()) m.push_back(x); o["mask"] = std::move(m); }
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array m; for (unsigned x : ev->getIndices()) m.push_back((int64_t)x); o["idxs"] = std::move(m); }
            if (auto *ev = dyn_cast<InsertValueInst>(&I)) { json::Array m; for (unsigned x : ev->getIndices()) m.push_back((int64_t)x); o["idxs"] = std::move(m); }
            if (auto *lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); json::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); ++k) { json::Object c; c["catch"] = lp->isCatch(k); c["v"] = opnd(lp->getClause(k)); cl.push_back(std::move(c)); } o["clauses"] = std::move(cl); }
            if (auto *st = dyn_cast<StoreInst>(&I)) { o["vt"] = tystr(st->getValueOperand()->getType()); o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); }
          }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["args"] = std::move(args); fo["blocks"] = std::move(blocks);
    }
    fns[F.getName().str()] = std::move(fo);
  }
  root["fns"] = std::move(fns);
  json::Object gl;
  for (GlobalVariable &G : M->globals()) {
    json::Object o; o["dem"] = demangle(G.getName().str()); o["const"] = G.isConstant(); o["size"] = (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0); o["type"] = tystr(G.getValueType());
    if (G.hasInitializer()) { std::string s; if (flat(G.getInitializer(), s) && s.size() < (1u << 20)) { std::string h; static const char *hx = "0123456789abcdef"; bool nz = false; for (unsigned char c : s) { h += hx[c >> 4]; h += hx[c & 15]; nz |= c != 0; } if (nz) o["init"] = h; else o["zero"] = true; } }
    if (G.hasInitializer()) if (auto *A = dyn_cast<ConstantArray>(G.getInitializer())) if (A->getType()->getElementType()->isPointerTy() && onlyRead(&G, 0)) {
      json::Array ps; for (unsigned k = 0; k < A->getNumOperands(); ++k) { auto *v = A->getOperand(k)->stripPointerCasts(); ps.push_back(isa<GlobalVariable>(v) ? json::Value(v->getName().str()) : json::Value(nullptr)); }
      o["ptrs"] = std::move(ps); }
    gl[G.getName().str()] = std::move(o);
  }
  root["globals"] = std::move(gl);
  DebugInfoFinder fin; fin.processModule(*M);
  json::Object recs, enums; 
  for (DIType *t : fin.types()) {
    auto *c = dyn_cast<DICompositeType>(t); if (!c) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) { json::Array a; for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) a.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()}); if (!c->getName().empty()) enums[c->getName().str()] = std::move(a); else enums["<anon>" + std::to_string(c->getLine())] = std::move(a); }
    else if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->isForwardDecl() && !c->getName().empty()) {
      std::string file = c->getFilename().str(); if (file.find("/usr/") == 0 || file.find("/usr/lib") != std::string::npos) continue;
      json::Object o; o["size"] = (int64_t)c->getSizeInBits(); o["members"] = members(c, 0, 0); o["file"] = file; o["line"] = (int64_t)c->getLine(); recs[c->getName().str()] = std::move(o); }
  }
  root["records"] = std::move(recs); root["enums"] = std::move(enums);
  std::error_code ec; raw_fd_ostream os(argv[1], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(root)); return 0;
}
