// irdump: prints the defined functions of an LLVM bitcode/IR module (and the constant globals they
// reference) as JSON, with every GEP flattened to base + constant byte offset + scaled indices, so that
// the algebraic value-numbering pass in lib/avn.py works on a layout-resolved SSA form.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Support/CommandLine.h>
#include <map>
#include <set>
using namespace llvm;
using J = json::Value;
static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::set<const GlobalVariable*> used;
static int idOf(const Value* v){ auto it = ids.find(v); if (it != ids.end()) return it->second; int n = ids.size(); ids[v] = n; return n; }
static std::string tyS(Type* t){ std::string s; raw_string_ostream o(s); t->print(o); return o.str(); }
static std::string fpS(const APFloat& f){
    bool l; APFloat d = f; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    char b[64]; snprintf(b, sizeof b, "%a", d.convertToDouble()); return b;
}
static J opnd(const Value* v);
static J gepJ(const GEPOperator* g){
    json::Array idx; APInt off(64, 0);
    MapVector<Value*, APInt> var; APInt c(64, 0);
    if (!g->collectOffset(*DL, 64, var, c)) return json::Array{"unknown"};
    for (auto& p : var) idx.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
    return json::Array{"gep", opnd(g->getPointerOperand()), c.getSExtValue(), std::move(idx)};
}
static J opnd(const Value* v){
    if (auto* c = dyn_cast<ConstantInt>(v)){ SmallString<32> s; c->getValue().toStringSigned(s); return json::Array{"i", s.str().str(), (int64_t)c->getBitWidth()}; }
    if (auto* c = dyn_cast<ConstantFP>(v)) return json::Array{"f", fpS(c->getValueAPF())};
    if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
    if (isa<UndefValue>(v)) return json::Array{"undef"};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", tyS(v->getType())};
    if (auto* f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
    if (auto* g = dyn_cast<GlobalVariable>(v)){ used.insert(g); return json::Array{"g", g->getName().str()}; }
    if (auto* g = dyn_cast<GEPOperator>(v)) if (isa<Constant>(v)) return gepJ(g);
    if (auto* ce = dyn_cast<ConstantExpr>(v)){ json::Array a{"ce", ce->getOpcodeName()}; for (auto& o : ce->operands()) a.push_back(opnd(o)); return J(std::move(a)); }
    if (auto* ca = dyn_cast<ConstantAggregate>(v)){ json::Array a; for (auto& o : ca->operands()) a.push_back(opnd(o)); return json::Array{"agg", J(std::move(a))}; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(v)){ json::Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(opnd(cd->getElementAsConstant(i))); return json::Array{"agg", J(std::move(a))}; }
    if (auto* a = dyn_cast<GlobalAlias>(v)) return opnd(a->getAliasee());
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    return json::Array{"v", idOf(v)};
}
static void flat(const Constant* c, uint64_t off, json::Array& out){
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c)){
        if (auto* at = dyn_cast<ArrayType>(t)){ if (at->getNumElements() > 100000) return; auto es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) flat(Constant::getNullValue(at->getElementType()), off + i*es, out); }
        else if (auto* st = dyn_cast<StructType>(t)){ auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flat(Constant::getNullValue(st->getElementType(i)), off + sl->getElementOffset(i), out); }
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)){ auto es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) flat(cd->getElementAsConstant(i), off + i*es, out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)){
        if (auto* st = dyn_cast<StructType>(t)){ auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); ++i) flat(ca->getOperand(i), off + sl->getElementOffset(i), out); }
        else { auto es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) flat(ca->getOperand(i), off + i*es, out); }
        return;
    }
    if (isa<UndefValue>(c)) return;
    out.push_back(json::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t), opnd(c)});
}
// a mutable static whose address is only used for loads keeps its initial value
static bool onlyRead(const Value* v, int depth = 0){
    if (depth > 6) return false;
    for (const User* u : v->users()){
        if (isa<LoadInst>(u)) continue;
        if (isa<GEPOperator>(u) || isa<ConstantExpr>(u)){ if (!onlyRead(u, depth + 1)) return false; continue; }
        if (auto* m = dyn_cast<MemTransferInst>(u)) if (m->getRawSource() == v && m->getRawDest() != v) continue;
        return false;
    }
    return true;
}
// Fold the witness functions: everything they call is inlined into them and loops with constant trip
// counts are removed by the compiler's own passes.  The semantics of the code is unchanged.
static void tidy(Module& M, const std::string& pfx, bool join){
    for (auto& F : M){
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::OptimizeNone);
        if (!F.getName().starts_with(pfx)){ F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
    }
    for (auto& G : M.globals()) if (!G.isDeclaration()){ G.setComdat(nullptr); if (!G.getName().starts_with("llvm.")) G.setLinkage(GlobalValue::InternalLinkage); }
    // static initialisers are not part of any witness
    if (auto* g = M.getNamedGlobal("llvm.global_ctors")) g->eraseFromParent();
    if (auto* g = M.getNamedGlobal("llvm.used")) g->eraseFromParent();
    if (auto* g = M.getNamedGlobal("llvm.compiler.used")) g->eraseFromParent();
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(GlobalDCEPass());
    auto scalars = []{ FunctionPassManager F; F.addPass(SROAPass(SROAOptions::ModifyCFG)); F.addPass(EarlyCSEPass(true)); F.addPass(InstCombinePass()); F.addPass(SimplifyCFGPass()); return F; };
    if (join){      // small functions disappear in their callers
        InlineParams IP; IP.DefaultThreshold = 150;
        MPM.addPass(createModuleToFunctionPassAdaptor(scalars()));
        MPM.addPass(ModuleInlinerWrapperPass(IP));
        MPM.addPass(createModuleToFunctionPassAdaptor(scalars()));
        MPM.addPass(GlobalDCEPass());
    }
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstCombinePass());
    FPM.addPass(SimplifyCFGPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.addPass(GlobalDCEPass());
    MPM.run(M, MAM);
}
static void fold(Module& M, const std::string& pfx){
    for (auto& F : M){
        if (F.isDeclaration()) continue;
        bool root = F.getName().starts_with(pfx);
        F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::Cold); F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeForSize); F.removeFnAttr(Attribute::MinSize);
        if (!root){
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::InternalLinkage);
            if (F.getName() != "__clang_call_terminate" && !F.getName().starts_with("_GLOBAL__")) F.addFnAttr(Attribute::AlwaysInline);
        }
        for (auto& B : F) for (auto& I : B){
            I.setMetadata(LLVMContext::MD_prof, nullptr);
            I.setMetadata(LLVMContext::MD_loop, nullptr);
            if (auto* cb = dyn_cast<CallBase>(&I)){ cb->removeFnAttr(Attribute::Cold); cb->removeFnAttr(Attribute::NoInline); }
        }
    }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions T; T.LoopVectorization = false; T.SLPVectorization = false; T.LoopInterleaving = false; T.LoopUnrolling = true; T.MergeFunctions = false; T.InlinerThreshold = 100000000;
    PassBuilder PB(nullptr, T);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    for (int it = 0; it < 10; ++it){
        ModulePassManager MPM;
        MPM.addPass(GlobalDCEPass());
        MPM.addPass(AlwaysInlinerPass());
        MPM.addPass(GlobalDCEPass());
        MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O3));
        MPM.run(M, MAM);
        bool more = false;      // calls that became direct only now
        for (auto& F : M) if (F.getName().starts_with(pfx)) for (auto& B : F) for (auto& I : B) if (auto* cb = dyn_cast<CallBase>(&I)) { auto* cf = cb->getCalledFunction(); if (cf ? !cf->isDeclaration() && cf->hasFnAttribute(Attribute::AlwaysInline) : !cb->isInlineAsm()) more = true; }
        if (!more && it) break;
        MAM.clear(); CAM.clear(); FAM.clear(); LAM.clear();
    }
}
int main(int argc, char** argv){
    LLVMContext C; SMDiagnostic e;
    const char* opts[] = {"irdump", "-unroll-threshold=1000000", "-unroll-full-max-count=100000", "-inline-threshold=100000000", "-inlinecold-threshold=100000000", "-inline-cold-callsite-threshold=100000000", "-vectorize-loops=0", "-unroll-max-iteration-count-to-analyze=1000"};
    cl::ParseCommandLineOptions(8, opts);
    auto M = parseIRFile(argv[1], e, C);
    if (!M){ e.print("irdump", errs()); return 2; }
    std::string pfx = argc > 2 ? argv[2] : "";
    std::string mode = argc > 4 ? argv[4] : "full";
    if (mode == "light" || mode == "join") tidy(*M, pfx, mode == "join"); else fold(*M, pfx);
    if (argc > 3 && argv[3][0] != '-'){ std::error_code ec; raw_fd_ostream o(argv[3], ec); M->print(o, nullptr); }
    DL = &M->getDataLayout();
    json::Object fs;
    for (auto& F : *M){
        if (F.isDeclaration()) continue;
        ids.clear();
        json::Array args, bbs;
        for (auto& a : F.args()) args.push_back(json::Array{idOf(&a), a.getName().str(), tyS(a.getType()), a.hasStructRetAttr()});
        for (auto& B : F){
            json::Array is;
            for (auto& I : B){
                if (isa<DbgInfoIntrinsic>(I)) continue;
                json::Object o; o["op"] = I.getOpcodeName(); o["ty"] = tyS(I.getType());
                if (!I.getType()->isVoidTy()) o["id"] = idOf(&I);
                if (auto* D = I.getDebugLoc().get()){ o["ln"] = (int64_t)D->getLine(); o["fl"] = D->getFilename().str(); }
                if (auto* c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                if (isa<CmpInst>(I) || isa<CastInst>(I)) { Type* t0 = I.getOperand(0)->getType(); if (t0->isIntegerTy()) o["w"] = (int64_t)t0->getIntegerBitWidth(); else if (t0->isPointerTy()) o["w"] = 64; }
                if (auto* al = dyn_cast<AllocaInst>(&I)){ o["aty"] = tyS(al->getAllocatedType()); if (auto s = al->getAllocationSize(*DL)) o["sz"] = (int64_t)s->getFixedValue(); }
                if (isa<LoadInst>(I)) o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType());
                if (auto* s = dyn_cast<StoreInst>(&I)){ o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); o["sty"] = tyS(s->getValueOperand()->getType()); }
                if (auto* ev = dyn_cast<ExtractValueInst>(&I)){ json::Array x; for (auto i : ev->indices()) x.push_back((int64_t)i); o["idx"] = J(std::move(x)); }
                if (auto* iv = dyn_cast<InsertValueInst>(&I)){ json::Array x; for (auto i : iv->indices()) x.push_back((int64_t)i); o["idx"] = J(std::move(x)); }
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)){ o["gep"] = gepJ(cast<GEPOperator>(g)); }
                else if (auto* p = dyn_cast<PHINode>(&I)){ json::Array in; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) in.push_back(json::Array{idOf(p->getIncomingBlock(i)), opnd(p->getIncomingValue(i))}); o["in"] = J(std::move(in)); }
                else if (auto* cb = dyn_cast<CallBase>(&I)){
                    o["fn"] = opnd(cb->getCalledOperand()); json::Array a; for (auto& x : cb->args()) a.push_back(opnd(x)); o["args"] = J(std::move(a));
                    o["noret"] = cb->doesNotReturn(); o["ro"] = cb->onlyReadsMemory(); o["rn"] = cb->doesNotAccessMemory();
                    if (auto* iv = dyn_cast<InvokeInst>(cb)){ o["norm"] = idOf(iv->getNormalDest()); o["unw"] = idOf(iv->getUnwindDest()); }
                } else if (auto* br = dyn_cast<BranchInst>(&I)){ json::Array s; for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(idOf(br->getSuccessor(i))); o["succ"] = J(std::move(s)); if (br->isConditional()) o["cond"] = opnd(br->getCondition()); }
                else if (auto* sw = dyn_cast<SwitchInst>(&I)){ json::Array s; for (auto& cs : sw->cases()){ s.push_back(json::Array{opnd(cs.getCaseValue()), idOf(cs.getCaseSuccessor())}); } o["cases"] = J(std::move(s)); o["def"] = idOf(sw->getDefaultDest()); o["cond"] = opnd(sw->getCondition()); }
                else { json::Array a; for (auto& x : I.operands()) if (!isa<BasicBlock>(x)) a.push_back(opnd(x)); o["ops"] = J(std::move(a)); }
                is.push_back(J(std::move(o)));
            }
            bbs.push_back(json::Array{idOf(&B), J(std::move(is))});
        }
        fs[F.getName()] = json::Object{{"args", J(std::move(args))}, {"bbs", J(std::move(bbs))}, {"ret", tyS(F.getReturnType())}};
    }
    json::Object gs; std::set<const GlobalVariable*> done;
    while (done.size() < used.size()){
        auto cur = used;
        for (auto* g : cur) if (done.insert(g).second){
            json::Object o; o["const"] = g->isConstant() || onlyRead(g); o["size"] = (int64_t)DL->getTypeAllocSize(g->getValueType());
            if (g->hasInitializer() ){ json::Array a; flat(g->getInitializer(), 0, a); o["init"] = J(std::move(a)); }
            gs[g->getName()] = J(std::move(o));
        }
    }
    outs() << J(json::Object{{"fns", J(std::move(fs))}, {"globals", J(std::move(gs))}}) << "\n";
}
