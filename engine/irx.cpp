/*
 * irx - "inlined root view" extractor.
 *
 * Links the bitcode of the library's translation units, and for every function
 * defined in the analysed repository builds a *root view*: a copy of the function
 * in which every call to another repository function is inlined (transitively),
 * virtual calls on the root's own `this' are resolved through the vtable of the
 * root's class, and locals are in SSA form.  Library (std::, gsl, HDF5, libc)
 * calls stay calls.  For each inherited virtual method a per-class view is built
 * too ("F@Class").  The views are dumped as JSON lines, for the Python rules.
 *
 * Nothing is executed; this is a program transformation plus a dump.
 *
 * usage: irx --repo PREFIX [--repo PREFIX]... [--keep REGEX]... [--only REGEX]
 *            [--unroll] -o OUT.jsonl a.bc b.bc ...
 */
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ProfileSummaryInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;
using std::string;

static std::vector<string> gRepo, gKeep, gInline, gIn;
static string gOut, gOnly;
static bool gUnroll = false;

static string dem(StringRef n) { return demangle(n.str()); }

static string spFile(const DISubprogram *sp) {
    if (!sp || !sp->getFile()) return "";
    string f = sp->getFilename().str();
    if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
    return f;
}
static bool inRepo(const string &f) {
    for (auto &r : gRepo) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
}
static bool isRepoFn(const Function &F) {
    if (F.isDeclaration()) return false;
    return inRepo(spFile(F.getSubprogram()));
}
static string typeStr(const DIType *t, int depth = 0);
static string scopeName(const DIScope *s) {
    if (!s) return "";
    if (auto *c = dyn_cast<DICompositeType>(s)) {
        string p = scopeName(c->getScope());
        return (p.empty() ? "" : p + "::") + c->getName().str();
    }
    if (auto *n = dyn_cast<DINamespace>(s)) {
        string p = scopeName(n->getScope());
        return (p.empty() ? "" : p + "::") + n->getName().str();
    }
    return "";
}
static string typeStr(const DIType *t, int depth) {
    if (!t) return "void";
    if (depth > 12) return "...";
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        string base = typeStr(d->getBaseType(), depth + 1);
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return base + "*";
            case dwarf::DW_TAG_reference_type: return base + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return base + "&&";
            case dwarf::DW_TAG_const_type: return "const " + base;
            case dwarf::DW_TAG_volatile_type: return "volatile " + base;
            default: return base;   /* typedefs are looked through */
        }
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) {
            string r = typeStr(c->getBaseType(), depth + 1);
            for (auto *e : c->getElements())
                if (auto *s = dyn_cast<DISubrange>(e)) {
                    auto cnt = s->getCount();
                    if (auto *ci = dyn_cast_if_present<ConstantInt *>(cnt)) r += "[" + std::to_string(ci->getSExtValue()) + "]";
                    else r += "[]";
                }
            return r;
        }
        string p = scopeName(c->getScope());
        return (p.empty() ? "" : p + "::") + c->getName().str();
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return "?";
}
/* class a subprogram is a member of */
static string spClass(const DISubprogram *sp) {
    if (!sp) return "";
    const DIScope *s = sp->getScope();
    if (auto *d = sp->getDeclaration()) s = d->getScope();
    if (s && isa<DICompositeType>(s)) return scopeName(s);
    return "";
}

struct VTable { std::vector<Function *> slots; };   /* address-point relative, 1st group only */
static std::map<string, VTable> gVT;
static std::map<string, GlobalVariable *> gVTG;

static void readVTables(Module &M) {
    for (auto &G : M.globals()) {
        if (!G.getName().starts_with("_ZTV") || !G.hasInitializer()) continue;
        string d = dem(G.getName());
        const string pre = "vtable for ";
        if (d.compare(0, pre.size(), pre)) continue;
        string cls = d.substr(pre.size());
        auto *cs = dyn_cast<ConstantStruct>(G.getInitializer());
        if (!cs || cs->getNumOperands() < 1) continue;
        auto *ca = dyn_cast<ConstantArray>(cs->getOperand(0));
        if (!ca) continue;
        VTable vt;
        for (unsigned i = 2; i < ca->getNumOperands(); i++)
            vt.slots.push_back(dyn_cast<Function>(ca->getOperand(i)->stripPointerCasts()));
        gVT[cls] = vt;
        gVTG[cls] = &G;
    }
}

static int thisIndex(const Function &F) {
    int i = 0;
    for (auto &A : F.args()) { if (A.hasStructRetAttr()) { i++; continue; } break; }
    return i;
}

static void cleanup(Function &F, FunctionAnalysisManager &FAM, PassBuilder &PB, const char *pipe) {
    FunctionPassManager FPM;
    if (auto e = PB.parsePassPipeline(FPM, pipe)) { errs() << toString(std::move(e)) << "\n"; exit(3); }
    FAM.invalidate(F, PreservedAnalyses::none());
    FPM.run(F, FAM);
    FAM.invalidate(F, PreservedAnalyses::none());
}

static bool gCtors = false;
static std::map<const Function *, bool> gInlC;
static bool inlinable(const Function &F) {
    if (F.isDeclaration()) return false;
    if (isRepoFn(F)) return true;
    if (gInline.empty()) return false;
    auto it = gInlC.find(&F);
    if (it != gInlC.end()) return it->second;
    string d = dem(F.getName()); bool r = false;
    for (auto &k : gInline) if (Regex(k).match(d)) { r = true; break; }
    return gInlC[&F] = r;
}
static bool kept(const Function &F) {
    if (gKeep.empty()) return false;
    string d = dem(F.getName());
    for (auto &k : gKeep) if (Regex(k).match(d)) return true;
    return false;
}

/* resolve  load(gep(load(this),k))  with a class's vtable */
static bool devirt(Function &R, const string &cls) {
    auto it = gVT.find(cls);
    if (it == gVT.end()) return false;
    int ti = thisIndex(R);
    if ((int)R.arg_size() <= ti) return false;
    Value *self = R.getArg(ti);
    bool changed = false;
    for (auto &I : instructions(R)) {
        auto *CB = dyn_cast<CallBase>(&I);
        if (!CB || CB->getCalledFunction() || CB->isInlineAsm()) continue;
        auto *L = dyn_cast<LoadInst>(CB->getCalledOperand());
        if (!L) continue;
        Value *p = L->getPointerOperand();
        uint64_t slot = 0;
        if (auto *G = dyn_cast<GEPOperator>(p)) {
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(R.getParent()->getDataLayout(), off)) continue;
            slot = off.getZExtValue() / 8; p = G->getPointerOperand();
        }
        auto *VL = dyn_cast<LoadInst>(p);
        if (!VL || VL->getPointerOperand()->stripPointerCasts() != self) continue;
        if (slot >= it->second.slots.size()) continue;
        Function *T = it->second.slots[slot];
        if (!T) continue;
        if (T->getFunctionType() != CB->getFunctionType()) continue;
        CB->setCalledFunction(T);
        changed = true;
    }
    return changed;
}

static std::map<const Function *, string> gRootOrig;   /* view -> original mangled name */
static std::map<const Function *, string> gRootClass;
static const char *CLEAN = "sroa,early-cse<memssa>,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instsimplify,adce";
static const char *CLEAN_UNROLL =
    "sroa,early-cse<memssa>,simplifycfg,instsimplify,loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,"
    "simplifycfg<no-switch-to-lookup>,instsimplify,gvn<no-pre;no-load-pre>,adce";

static void buildView(Function &R, const string &cls, FunctionAnalysisManager &FAM, PassBuilder &PB) {
    std::map<const Function *, int> hist;
    for (int round = 0; round < 12; round++) {
        bool changed = false;
        if (!cls.empty()) changed |= devirt(R, cls);
        std::vector<CallBase *> todo;
        if (gCtors)                                                   /* complete-object constructors are aliases */
            for (auto &I : instructions(R))
                if (auto *CB = dyn_cast<CallBase>(&I))
                    if (!CB->getCalledFunction())
                        if (auto *T = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases()))
                            if (T->getFunctionType() == CB->getFunctionType()) { CB->setCalledFunction(T); changed = true; }
        for (auto &I : instructions(R))
            if (auto *CB = dyn_cast<CallBase>(&I))
                if (auto *C = CB->getCalledFunction())
                    if (inlinable(*C) && !kept(*C)) todo.push_back(CB);
        for (auto *CB : todo) {
            Function *C = CB->getCalledFunction();
            if (C->getName() == gRootOrig[&R]) continue;             /* self recursion */
            if (hist[C] > 400 || (round > 8)) continue;
            if (R.getInstructionCount() > 60000) continue;
            hist[C]++;
            InlineFunctionInfo IFI;
            if (InlineFunction(*CB, IFI, false, nullptr, false).isSuccess()) changed = true;
        }
        cleanup(R, FAM, PB, CLEAN);
        if (!changed) break;
    }
    if (gUnroll) { cleanup(R, FAM, PB, CLEAN_UNROLL); cleanup(R, FAM, PB, CLEAN_UNROLL); }
}

/* ---------------------------------------------------------------- dump */
static string tyName(Type *t) {
    string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

struct Dumper {
    const DataLayout &DL;
    explicit Dumper(const DataLayout &d) : DL(d) {}
    DenseMap<const Value *, int> id;
    std::set<const GlobalVariable *> strings;

    json::Value fpConst(const APFloat &f) {
        SmallString<32> s; f.toString(s, 20, 0, false);
        return json::Object{{"k", "f"}, {"v", s.str().str()}, {"h", utohexstr(f.bitcastToAPInt().getZExtValue())}};
    }
    json::Value operand(const Value *v) {
        if (auto it = id.find(v); it != id.end())
            return json::Value(it->second);
        if (auto *a = dyn_cast<Argument>(v)) return json::Object{{"k", "a"}, {"v", (int64_t)a->getArgNo()}};
        if (auto *b = dyn_cast<BasicBlock>(v)) { (void)b; return json::Object{{"k", "b"}}; }
        if (auto *c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() <= 64)
                return json::Object{{"k", "i"}, {"v", c->getSExtValue()}, {"w", (int64_t)c->getBitWidth()}};
            return json::Object{{"k", "?"}};
        }
        if (auto *c = dyn_cast<ConstantFP>(v)) {
            if (c->getType()->isDoubleTy() || c->getType()->isFloatTy()) return fpConst(c->getValueAPF());
            APFloat x = c->getValueAPF(); bool li; x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            return fpConst(x);
        }
        if (isa<ConstantPointerNull>(v)) return json::Object{{"k", "n"}};
        if (isa<UndefValue>(v)) return json::Object{{"k", "u"}};
        if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Object{{"k", "g"}, {"v", g->getName().str()}};
        if (auto *f = dyn_cast<Function>(v)) return json::Object{{"k", "fn"}, {"v", f->getName().str()}};
        if (auto *ga = dyn_cast<GlobalAlias>(v)) return operand(ga->getAliasee());
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (auto *gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (gep->accumulateConstantOffset(DL, off))
                    if (auto *g = dyn_cast<GlobalValue>(gep->getPointerOperand()->stripPointerCasts()))
                        return json::Object{{"k", "g"}, {"v", g->getName().str()}, {"o", off.getSExtValue()}};
            }
            if (ce->isCast()) return operand(ce->getOperand(0));
        }
        if (isa<ConstantAggregateZero>(v)) return json::Object{{"k", "z"}};
        if (auto *cv = dyn_cast<ConstantDataVector>(v)) {
            json::Array a; for (unsigned i = 0; i < cv->getNumElements(); i++) a.push_back(operand(cv->getElementAsConstant(i)));
            return json::Object{{"k", "vec"}, {"v", std::move(a)}};
        }
        if (isa<MetadataAsValue>(v)) return json::Object{{"k", "md"}};
        return json::Object{{"k", "?"}};
    }

    json::Value dump(Function &F, const string &orig, const string &cls) {
        id.clear();
        int n = 0; DenseMap<const BasicBlock *, int> bid;
        int nb = 0;
        for (auto &B : F) { bid[&B] = nb++; for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) id[&I] = n++; }
        json::Object o;
        o["t"] = "fn"; o["name"] = orig; o["dem"] = dem(orig); o["cls"] = cls;
        o["view"] = F.getName().str();
        auto *sp = F.getSubprogram();
        o["file"] = spFile(sp); o["line"] = sp ? (int64_t)sp->getLine() : 0;
        o["scls"] = spClass(sp);
        o["short"] = sp ? sp->getName().str() : "";
        o["ret"] = tyName(F.getReturnType());
        json::Array args;
        {
            std::map<unsigned, std::pair<string, string>> an;
            if (sp) for (auto *nd : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(nd)) if (lv->getArg()) an[lv->getArg()] = {lv->getName().str(), typeStr(lv->getType())};
            int sr = thisIndex(F);
            json::Array dt;
            if (sp && sp->getType()) for (auto *t : sp->getType()->getTypeArray()) dt.push_back(typeStr(t));
            o["sig"] = std::move(dt);
            for (auto &A : F.args()) {
                json::Object a; a["ty"] = tyName(A.getType());
                if (A.hasStructRetAttr()) a["sret"] = true;
                auto it = an.find((int)A.getArgNo() - sr + 1);
                a["name"] = A.getName().str();
                args.push_back(std::move(a));
            }
        }
        o["args"] = std::move(args);
        json::Array blocks;
        for (auto &B : F) {
            json::Array is;
            for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                json::Object x;
                x["i"] = id[&I]; x["op"] = I.getOpcodeName(); x["ty"] = tyName(I.getType());
                if (auto &dl = I.getDebugLoc()) {
                    x["l"] = (int64_t)dl.getLine();
                    if (auto *dsp = getDISubprogram(dl.getScope())) {
                        string f = spFile(dsp);
                        if (auto *ls = dyn_cast<DILocalScope>(dl.getScope())) if (ls->getFile()) {
                            string lf = ls->getFilename().str();
                            if (!lf.empty() && lf[0] != '/') lf = ls->getDirectory().str() + "/" + lf;
                            f = lf;
                        }
                        x["lf"] = f; x["fn"] = dsp->getName().str();
                    }
                }
                json::Array ops;
                if (auto *CB = dyn_cast<CallBase>(&I)) {
                    for (auto &a : CB->args()) ops.push_back(operand(a));
                    if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { x["callee"] = C->getName().str(); }
                    else x["cv"] = operand(CB->getCalledOperand());
                    json::Array at; for (auto &a : CB->args()) at.push_back(tyName(a->getType()));
                    x["aty"] = std::move(at);
                    if (CB->hasStructRetAttr()) x["sret"] = true;
                    if (CB->doesNotReturn()) x["nr"] = true;
                    if (auto *II = dyn_cast<InvokeInst>(CB)) { x["nd"] = bid[II->getNormalDest()]; x["ud"] = bid[II->getUnwindDest()]; }
                } else if (auto *P = dyn_cast<PHINode>(&I)) {
                    json::Array bs;
                    for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { ops.push_back(operand(P->getIncomingValue(k))); bs.push_back(bid[P->getIncomingBlock(k)]); }
                    x["pb"] = std::move(bs);
                } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                    if (Br->isConditional()) ops.push_back(operand(Br->getCondition()));
                    json::Array bs; for (unsigned k = 0; k < Br->getNumSuccessors(); k++) bs.push_back(bid[Br->getSuccessor(k)]); x["s"] = std::move(bs);
                } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(operand(S->getCondition()));
                    x["def"] = bid[S->getDefaultDest()];
                    json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)bid[c.getCaseSuccessor()]});
                    x["cases"] = std::move(cs);
                } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    ops.push_back(operand(G->getPointerOperand()));
                    MapVector<Value *, APInt> vo; APInt co(64, 0);
                    if (G->collectOffset(DL, 64, vo, co)) {
                        x["off"] = co.getSExtValue();
                        json::Array va;
                        for (auto &p : vo) va.push_back(json::Array{operand(p.first), p.second.getSExtValue()});
                        x["var"] = std::move(va);
                    }
                    x["st"] = tyName(G->getSourceElementType());
                } else {
                    for (auto &u : I.operands()) ops.push_back(operand(u));
                    if (auto *C = dyn_cast<CmpInst>(&I)) x["p"] = CmpInst::getPredicateName(C->getPredicate()).str();
                    if (auto *A = dyn_cast<AllocaInst>(&I)) { x["at"] = tyName(A->getAllocatedType()); auto sz = A->getAllocationSize(DL); if (sz) x["sz"] = (int64_t)sz->getFixedValue(); x["vn"] = A->getName().str(); }
                    if (auto *L = dyn_cast<LoadInst>(&I)) x["sz"] = (int64_t)DL.getTypeStoreSize(L->getType()).getFixedValue();
                    if (auto *S = dyn_cast<StoreInst>(&I)) x["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
                    if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : E->indices()) ix.push_back((int64_t)k); x["ix"] = std::move(ix); }
                    if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto k : E->indices()) ix.push_back((int64_t)k); x["ix"] = std::move(ix); }
                    if (auto *LP = dyn_cast<LandingPadInst>(&I)) { x["cleanup"] = LP->isCleanup(); json::Array cl; for (unsigned k = 0; k < LP->getNumClauses(); k++) cl.push_back(operand(LP->getClause(k))); x["clauses"] = std::move(cl); }
                    if (isa<CastInst>(I)) x["fty"] = tyName(I.getOperand(0)->getType());
                    if (auto *R = dyn_cast<AtomicRMWInst>(&I)) x["rmw"] = AtomicRMWInst::getOperationName(R->getOperation()).str();
                }
                x["o"] = std::move(ops);
                is.push_back(std::move(x));
            }
            json::Array preds; for (auto *p : predecessors(&B)) preds.push_back(bid[p]);
            blocks.push_back(json::Object{{"b", bid[&B]}, {"p", std::move(preds)}, {"n", std::move(is)}});
        }
        o["blocks"] = std::move(blocks);
        return o;
    }
};

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--repo") gRepo.push_back(argv[++i]);
        else if (a == "--keep") gKeep.push_back(argv[++i]);
        else if (a == "--inline") gInline.push_back(argv[++i]);
        else if (a == "--only") gOnly = argv[++i];
        else if (a == "--unroll") gUnroll = true;
        else if (a == "--ctors") gCtors = true;
        else if (a == "-o") gOut = argv[++i];
        else gIn.push_back(a);
    }
    LLVMContext Ctx; SMDiagnostic Err;
    auto M = std::make_unique<Module>("all", Ctx);
    Linker L(*M);
    for (auto &f : gIn) {
        auto m = parseIRFile(f, Err, Ctx);
        if (!m) { Err.print("irx", errs()); return 2; }
        if (f.find("witness_headers") != string::npos)
            for (auto &F : *m) if (isRepoFn(F) && F.hasLinkOnceODRLinkage()) F.setLinkage(GlobalValue::WeakODRLinkage);
        if (L.linkInModule(std::move(m))) { errs() << "link failed " << f << "\n"; return 2; }
    }
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);

    readVTables(*M);
    std::error_code ec; raw_fd_ostream out(gOut, ec);
    if (ec) { errs() << ec.message(); return 2; }
    Dumper D(M->getDataLayout());

    std::vector<Function *> repoF;
    for (auto &F : *M) {
        F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
        if (isRepoFn(F)) repoF.push_back(&F);
    }
    for (auto *F : repoF) cleanup(*F, FAM, PB, CLEAN);
    for (auto &F : *M) if (!F.isDeclaration() && !isRepoFn(F) && inlinable(F)) cleanup(F, FAM, PB, CLEAN);

    /* globals */
    for (auto &G : M->globals()) {
        json::Object o; o["t"] = "glob"; o["name"] = G.getName().str(); o["dem"] = dem(G.getName());
        o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal(); o["decl"] = G.isDeclaration();
        o["internal"] = G.hasLocalLinkage(); o["ty"] = tyName(G.getValueType());
        SmallVector<DIGlobalVariableExpression *, 2> gv; G.getDebugInfo(gv);
        if (!gv.empty()) {
            auto *v = gv[0]->getVariable(); string f;
            if (v->getFile()) { f = v->getFilename().str(); if (!f.empty() && f[0] != '/') f = v->getDirectory().str() + "/" + f; }
            o["file"] = f; o["line"] = (int64_t)v->getLine(); o["dty"] = typeStr(v->getType());
        }
        if (G.hasInitializer()) {
            auto *in = G.getInitializer();
            if (auto *cda = dyn_cast<ConstantDataSequential>(in)) {
                if (cda->isString()) { string s = cda->getAsString().str(); if (json::isUTF8(s)) o["str"] = s; else o["str"] = json::fixUTF8(s); }
                else { json::Array a; for (unsigned i = 0; i < cda->getNumElements() && i < 4096; i++) a.push_back(D.operand(cda->getElementAsConstant(i))); o["data"] = std::move(a); }
            } else if (auto *ca = dyn_cast<ConstantAggregate>(in)) {
                json::Array a; 
                std::function<void(const Constant*)> rec = [&](const Constant *c) {
                    if (auto *x = dyn_cast<ConstantAggregate>(c)) { for (auto &op : x->operands()) rec(cast<Constant>(op)); }
                    else if (auto *x = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < x->getNumElements() && i < 4096; i++) a.push_back(D.operand(x->getElementAsConstant(i))); }
                    else a.push_back(D.operand(c));
                };
                rec(ca); o["data"] = std::move(a);
            } else if (isa<ConstantAggregateZero>(in)) o["zero"] = true;
            else o["data"] = json::Array{D.operand(in)};
        }
        out << json::Value(std::move(o)) << "\n";
    }
    for (auto &p : gVT) {
        json::Array a; for (auto *f : p.second.slots) a.push_back(f ? json::Value(f->getName().str()) : json::Value(nullptr));
        out << json::Value(json::Object{{"t", "vt"}, {"cls", p.first}, {"slots", std::move(a)}}) << "\n";
    }
    /* debug-info types */
    DebugInfoFinder DIF; DIF.processModule(*M);
    std::set<string> seenT;
    for (auto *t : DIF.types()) {
        auto *c = dyn_cast<DICompositeType>(t); if (!c) continue;
        if (c->isForwardDecl()) continue;
        string f; if (c->getFile()) { f = c->getFilename().str(); if (!f.empty() && f[0] != '/') f = c->getDirectory().str() + "/" + f; }
        string nm = typeStr(c);
        bool rep = inRepo(f);
        if (!rep) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type && c->getName().empty() && c->getElements().size())
            if (auto *en = dyn_cast<DIEnumerator>(c->getElements()[0])) nm += "anonymous:" + en->getName().str();
        if (nm.empty() || !seenT.insert(nm + "|" + std::to_string(c->getTag())).second) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            json::Array e; for (auto *x : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(x)) e.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
            out << json::Value(json::Object{{"t", "enum"}, {"name", nm}, {"file", f}, {"line", (int64_t)c->getLine()}, {"vals", std::move(e)}}) << "\n";
        } else if (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type) {
            json::Array m, bs;
            for (auto *x : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(x)) {
                if (d->getTag() == dwarf::DW_TAG_inheritance) bs.push_back(json::Array{typeStr(d->getBaseType()), (int64_t)(d->getOffsetInBits() / 8)});
                else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
                    uint64_t sz = 0; const DIType *bt = d->getBaseType(); 
                    for (int k = 0; bt && k < 10; k++) { if (bt->getSizeInBits()) { sz = bt->getSizeInBits() / 8; break; } if (auto *dd = dyn_cast<DIDerivedType>(bt)) bt = dd->getBaseType(); else break; }
                    m.push_back(json::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), typeStr(d->getBaseType()), (int64_t)sz});
                }
            }
            out << json::Value(json::Object{{"t", "class"}, {"name", nm}, {"file", f}, {"line", (int64_t)c->getLine()}, {"size", (int64_t)(c->getSizeInBits() / 8)}, {"members", std::move(m)}, {"bases", std::move(bs)}}) << "\n";
        }
    }
    /* declared functions: names, for demangling */
    for (auto &F : *M) {
        out << json::Value(json::Object{{"t", isRepoFn(F) ? "name" : "decl"}, {"name", F.getName().str()}, {"dem", dem(F.getName())}, {"body", !F.isDeclaration()}, {"nr", F.doesNotReturn()}}) << "\n";
    }

    /* class of every repo function; per-class views of inherited virtual methods */
    std::vector<std::tuple<Function *, string, string>> roots;   /* fn, class, suffix */
    std::set<string> repoCls;
    for (auto *F : repoF) { string c = spClass(F->getSubprogram()); if (!c.empty()) repoCls.insert(c); roots.push_back({F, c, ""}); }
    for (auto &p : gVT) {
        if (!repoCls.count(p.first)) continue;
        std::set<Function *> seen;
        for (auto *s : p.second.slots) if (s && isRepoFn(*s) && seen.insert(s).second) {
            string c = spClass(s->getSubprogram());
            if (c != p.first && s->getName().find("D0Ev") == StringRef::npos && s->getName().find("D2Ev") == StringRef::npos && s->getName().find("D1Ev") == StringRef::npos)
                roots.push_back({s, p.first, "@" + p.first});
        }
    }
    /* per-class views of inherited non-virtual methods that make virtual calls */
    {
        std::map<string, std::set<string>> bases;
        for (auto *t : DIF.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (!c->isForwardDecl())
            for (auto *x : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(x))
                if (d->getTag() == dwarf::DW_TAG_inheritance) bases[typeStr(c)].insert(typeStr(d->getBaseType()));
        std::function<bool(const string &, const string &)> derives = [&](const string &d, const string &b) {
            for (auto &x : bases[d]) if (x == b || derives(x, b)) return true;
            return false;
        };
        std::vector<Function *> cand;
        for (auto *F : repoF) {
            auto *sp = F->getSubprogram(); if (spClass(sp).empty()) continue;
            if (F->getName().contains("C1E") || F->getName().contains("C2E") || F->getName().contains("D0Ev") || F->getName().contains("D1Ev") || F->getName().contains("D2Ev")) continue;
            bool ind = false;
            for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (!CB->getCalledFunction() && !CB->isInlineAsm()) ind = true;
                else if (auto *C = CB->getCalledFunction()) if (isRepoFn(*C) && spClass(C->getSubprogram()) == spClass(sp))
                    for (auto &J : instructions(*C)) if (auto *CC = dyn_cast<CallBase>(&J)) if (!CC->getCalledFunction() && !CC->isInlineAsm()) ind = true;
            }
            if (ind) cand.push_back(F);
        }
        for (auto &p : gVT) {
            if (!repoCls.count(p.first)) continue;
            std::set<Function *> slots(p.second.slots.begin(), p.second.slots.end());
            for (auto *F : cand) {
                string c = spClass(F->getSubprogram());
                if (slots.count(F) || !derives(p.first, c)) continue;
                bool isVirt = false;
                for (auto &q : gVT) if (std::count(q.second.slots.begin(), q.second.slots.end(), F)) { isVirt = true; break; }
                if (isVirt) continue;   /* overridden in p */
                roots.push_back({F, p.first, "@" + p.first});
            }
        }
    }
    Regex only(gOnly.empty() ? ".*" : gOnly);
    std::vector<std::pair<Function *, string>> views;
    for (auto &[F, cls, suf] : roots) {
        string d = dem(F->getName());
        if (!gOnly.empty() && !only.match(d)) continue;
        ValueToValueMapTy VM;
        Function *R = CloneFunction(F, VM);
        R->setName("view." + F->getName().str() + suf);
        R->setLinkage(GlobalValue::ExternalLinkage);
        R->setComdat(nullptr);
        gRootOrig[R] = F->getName().str();
        gRootClass[R] = cls;
        buildView(*R, cls, FAM, PB);
        auto v = D.dump(*R, F->getName().str() + "", cls);
        auto *ob = v.getAsObject(); (*ob)["suf"] = suf;
        out << v << "\n";
        R->eraseFromParent();
    }
    out.flush();
    return 0;
}
