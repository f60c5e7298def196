// irdump: print an LLVM module as JSON, resolved enough for dataflow analyses in Python.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
using namespace llvm;

static raw_ostream &O = outs();
static void str(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); O << b; }
    else O << c;
  }
  O << '"';
}
static void ty(Type *t) { std::string s; raw_string_ostream r(s); t->print(r, false, true); str(r.str()); }
static const DataLayout *DL;
static std::map<const Value *, int> ids;

static void val(const Value *v);
static void gepParts(const GEPOperator *g) {
  unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
  MapVector<Value *, APInt> vars; APInt c(bw, 0);
  O << "{\"base\":"; val(g->getPointerOperand());
  if (g->collectOffset(*DL, bw, vars, c)) {
    O << ",\"off\":" << c.getSExtValue() << ",\"vars\":[";
    bool f = true;
    for (auto &p : vars) { if (!f) O << ","; f = false; O << "["; val(p.first); O << "," << p.second.getSExtValue() << "]"; }
    O << "]";
  }
  O << ",\"inb\":" << (g->isInBounds() ? 1 : 0) << "}";
}
static void val(const Value *v) {
  if (auto *i = dyn_cast<Instruction>(v)) { O << "[\"v\"," << ids[i] << "]"; return; }
  if (auto *a = dyn_cast<Argument>(v)) { O << "[\"a\"," << a->getArgNo() << "]"; return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { O << "[\"b\"," << ids[b] << "]"; return; }
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s; c->getValue().toStringUnsigned(s);
    O << "[\"c\"," << s << "," << c->getBitWidth() << "]"; return;
  }
  if (isa<ConstantPointerNull>(v)) { O << "[\"n\"]"; return; }
  if (isa<UndefValue>(v)) { O << "[\"u\"]"; return; }
  if (auto *f = dyn_cast<ConstantFP>(v)) { SmallString<40> s; f->getValueAPF().toString(s); O << "[\"f\","; str(s); O << "]"; return; }
  if (auto *g = dyn_cast<GlobalValue>(v)) { O << "[\"g\","; str(g->getName()); O << "]"; return; }
  if (isa<ConstantAggregateZero>(v)) { O << "[\"z\","; ty(v->getType()); O << "]"; return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(v)) {
    O << "[\"agg\",["; 
    for (unsigned i = 0; i < d->getNumElements(); i++) { if (i) O << ","; val(d->getElementAsConstant(i)); }
    O << "],"; ty(v->getType()); O << "]"; return;
  }
  if (auto *d = dyn_cast<ConstantAggregate>(v)) {
    O << "[\"agg\",["; 
    for (unsigned i = 0; i < d->getNumOperands(); i++) { if (i) O << ","; val(d->getOperand(i)); }
    O << "],"; ty(v->getType()); O << "]"; return;
  }
  if (auto *g = dyn_cast<GEPOperator>(v)) { O << "[\"gep\","; gepParts(g); O << "]"; return; }
  if (auto *e = dyn_cast<ConstantExpr>(v)) {
    O << "[\"ce\","; str(e->getOpcodeName()); O << ",[";
    for (unsigned i = 0; i < e->getNumOperands(); i++) { if (i) O << ","; val(e->getOperand(i)); }
    O << "]]"; return;
  }
  if (auto *m = dyn_cast<MetadataAsValue>(v)) { (void)m; O << "[\"md\"]"; return; }
  if (isa<InlineAsm>(v)) { O << "[\"asm\","; str(cast<InlineAsm>(v)->getAsmString()); O << ","; str(cast<InlineAsm>(v)->getConstraintString()); O << "]"; return; }
  O << "[\"?\"]";
}
static void loc(const Instruction &I) {
  const DILocation *l = I.getDebugLoc();
  if (!l) return;
  // innermost location plus the chain of inlined-at
  O << ",\"loc\":[";
  bool f = true;
  for (; l; l = l->getInlinedAt()) {
    if (!f) O << ","; f = false;
    O << "["; str(l->getFilename()); O << "," << l->getLine() << ",";
    auto *sp = l->getScope()->getSubprogram();
    str(sp ? sp->getName() : ""); O << "]";
  }
  O << "]";
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  O << "{\"source\":"; str(M->getSourceFileName());
  O << ",\"structs\":{";
  { bool g = true;
    for (StructType *t : M->getIdentifiedStructTypes()) { if (t->isOpaque() || !t->isSized()) continue;
      if (!g) O << ","; g = false; str(("%" + t->getName()).str()); const StructLayout *L = DL->getStructLayout(t);
      O << ":{\"size\":" << (uint64_t)L->getSizeInBytes() << ",\"f\":[";
      for (unsigned i = 0; i < t->getNumElements(); i++) { if (i) O << ","; O << "[" << (uint64_t)L->getElementOffset(i) << ","; ty(t->getElementType(i)); O << "]"; }
      O << "]}"; } }
  O << "},\"globals\":{";
  bool f = true;
  for (auto &g : M->globals()) {
    if (!f) O << ",\n"; f = false;
    str(g.getName()); O << ":{\"dem\":"; str(demangle(g.getName().str())); O << ",\"ty\":"; ty(g.getValueType());
    O << ",\"size\":" << (g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0);
    O << ",\"const\":" << g.isConstant() << ",\"tls\":" << g.isThreadLocal() << ",\"linkage\":" << (int)g.getLinkage() << ",\"local\":" << g.hasLocalLinkage() << ",\"weak\":" << (g.isWeakForLinker());
    if (g.hasInitializer()) { O << ",\"init\":"; val(g.getInitializer()); }
    SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
    if (!gv.empty()) { O << ",\"loc\":["; str(gv[0]->getVariable()->getFilename()); O << "," << gv[0]->getVariable()->getLine() << "]"; }
    O << "}";
  }
  O << "},\"enums\":[";
  { DebugInfoFinder F; F.processModule(*M); bool f = true;
    for (auto *t : F.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (!f) O << ","; f = false;
      O << "["; str(ct->getName()); O << ",{"; bool g = true;
      for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!g) O << ","; g = false; str(en->getName()); O << ":" << en->getValue().getSExtValue(); }
      O << "}]";
    } }
  O << "],\"aliases\":{";
  { bool g = true; for (auto &a : M->aliases()) if (auto *o = a.getAliaseeObject()) { if (!g) O << ","; g = false; str(a.getName()); O << ":"; str(o->getName()); } }
  O << "},\"functions\":{";
  f = true;
  for (auto &F : *M) {
    if (!f) O << ",\n"; f = false;
    ids.clear();
    int n = 0, b = 0;
    for (auto &B : F) { ids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    str(F.getName()); O << ":{\"dem\":"; str(demangle(F.getName().str())); O << ",\"ty\":"; ty(F.getFunctionType());
    O << ",\"decl\":" << F.isDeclaration() << ",\"local\":" << F.hasLocalLinkage() << ",\"weak\":" << F.isWeakForLinker() << ",\"addrtaken\":" << F.hasAddressTaken();
    O << ",\"features\":"; str(F.getFnAttribute("target-features").getValueAsString());
    if (auto *sp = F.getSubprogram()) { O << ",\"file\":"; str(sp->getFilename()); O << ",\"line\":" << sp->getLine();
      O << ",\"tparams\":["; bool g = true;
      for (auto *t : sp->getTemplateParams()) if (auto *tv = dyn_cast<DITemplateValueParameter>(t)) {
        if (!g) O << ","; g = false; O << "["; str(tv->getName()); O << ",";
        auto *cm = dyn_cast_or_null<ConstantAsMetadata>(tv->getValue());
        if (cm && isa<ConstantInt>(cm->getValue())) O << cast<ConstantInt>(cm->getValue())->getSExtValue();
        else if (cm && isa<Function>(cm->getValue())) str(cast<Function>(cm->getValue())->getName());
        else O << "null";
        O << "]"; }
      O << "]"; }
    O << ",\"alwaysinline\":" << F.hasFnAttribute(Attribute::AlwaysInline);
    O << ",\"args\":[";
    { bool g = true; for (auto &a : F.args()) { if (!g) O << ","; g = false; O << "{\"ty\":"; ty(a.getType()); O << ",\"name\":"; str(a.getName()); O << ",\"sret\":" << a.hasStructRetAttr() << ",\"byval\":" << a.hasByValAttr() << ",\"ro\":" << a.onlyReadsMemory() << "}"; } }
    O << "],\"blocks\":[";
    bool fb = true;
    for (auto &B : F) {
      if (!fb) O << ","; fb = false;
      O << "[";
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (!fi) O << ",\n"; fi = false;
        O << "{\"id\":" << ids[&I] << ",\"op\":"; str(I.getOpcodeName()); O << ",\"ty\":"; ty(I.getType());
        if (auto *cb = dyn_cast<CallBase>(&I)) {
          O << ",\"callee\":"; val(cb->getCalledOperand()->stripPointerCasts());
          O << ",\"ops\":["; bool g = true;
          for (auto &a : cb->args()) { if (!g) O << ","; g = false; val(a.get()); }
          O << "],\"fty\":"; ty(cb->getFunctionType());
          O << ",\"ro\":" << (cb->onlyReadsMemory() ? 1 : 0) << ",\"argro\":["; g = true;
          for (unsigned k = 0; k < cb->arg_size(); k++) { if (!g) O << ","; g = false; O << (cb->onlyReadsMemory(k) ? 1 : 0); }
          O << "]";
          if (cb->hasStructRetAttr()) O << ",\"sret\":1";
          if (cb->doesNotReturn()) O << ",\"noreturn\":1";
          if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { O << ",\"intr\":"; str(Intrinsic::getBaseName(ii->getIntrinsicID())); }
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { O << ",\"succ\":[" << ids[iv->getNormalDest()] << "," << ids[iv->getUnwindDest()] << "]"; }
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          O << ",\"in\":["; 
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << ids[p->getIncomingBlock(i)] << ","; val(p->getIncomingValue(i)); O << "]"; }
          O << "],\"ops\":[]";
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          O << ",\"ops\":["; if (br->isConditional()) val(br->getCondition());
          O << "],\"succ\":["; for (unsigned i = 0; i < br->getNumSuccessors(); i++) { if (i) O << ","; O << ids[br->getSuccessor(i)]; } O << "]";
        } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          O << ",\"ops\":["; val(sw->getCondition()); O << "],\"default\":" << ids[sw->getDefaultDest()] << ",\"cases\":[";
          bool g = true; for (auto &c : sw->cases()) { if (!g) O << ","; g = false; O << "["; val(c.getCaseValue()); O << "," << ids[c.getCaseSuccessor()] << "]"; }
          O << "],\"succ\":[" << ids[sw->getDefaultDest()]; for (auto &c : sw->cases()) O << "," << ids[c.getCaseSuccessor()]; O << "]";
        } else if (auto *g = dyn_cast<GEPOperator>(&I)) {
          O << ",\"ops\":["; val(g->getPointerOperand()); O << "],\"gep\":"; gepParts(g);
        } else {
          O << ",\"ops\":["; for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; val(I.getOperand(i)); } O << "]";
          if (auto *c = dyn_cast<CmpInst>(&I)) { O << ",\"pred\":"; str(CmpInst::getPredicateName(c->getPredicate())); }
          if (auto *l = dyn_cast<LoadInst>(&I)) { O << ",\"size\":" << DL->getTypeStoreSize(l->getType()) << ",\"align\":" << l->getAlign().value(); }
          if (auto *s = dyn_cast<StoreInst>(&I)) { O << ",\"size\":" << DL->getTypeStoreSize(s->getValueOperand()->getType()) << ",\"align\":" << s->getAlign().value(); }
          if (auto *a = dyn_cast<AllocaInst>(&I)) { O << ",\"aty\":"; ty(a->getAllocatedType()); O << ",\"size\":" << DL->getTypeAllocSize(a->getAllocatedType()); }
          if (auto *e = dyn_cast<ExtractValueInst>(&I)) { O << ",\"idx\":["; bool g = true; for (auto k : e->indices()) { if (!g) O << ","; g = false; O << k; } O << "]"; }
          if (auto *e = dyn_cast<InsertValueInst>(&I)) { O << ",\"idx\":["; bool g = true; for (auto k : e->indices()) { if (!g) O << ","; g = false; O << k; } O << "]"; }
          if (auto *s = dyn_cast<ShuffleVectorInst>(&I)) { O << ",\"mask\":["; bool g = true; for (int k : s->getShuffleMask()) { if (!g) O << ","; g = false; O << k; } O << "]"; }
        }
        if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) O << ",\"nsw\":1"; if (ob->hasNoUnsignedWrap()) O << ",\"nuw\":1"; }
        loc(I);
        O << "}";
      }
      O << "]";
    }
    O << "]}";
  }
  O << "}}\n";
  return 0;
}
