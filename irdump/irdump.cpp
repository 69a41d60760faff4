// irdump: reads an LLVM IR file, promotes memory to registers and writes the
// resolved program (functions, CFG, accesses with byte offsets, loops, class
// layouts) as JSON. Nothing is executed.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout* DL;

static std::string tyStr(Type* t)
{
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (auto* it = dyn_cast<IntegerType>(t)) return "i" + std::to_string(it->getBitWidth());
    if (t->isFloatTy()) return "f32";
    if (t->isDoubleTy()) return "f64";
    if (t->isX86_FP80Ty()) return "f80";
    if (auto* st = dyn_cast<StructType>(t)) {
        std::string s = "{";
        for (unsigned i = 0; i < st->getNumElements(); ++i) s += (i ? "," : "") + tyStr(st->getElementType(i));
        return s + "}";
    }
    if (auto* at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + "x" + tyStr(at->getElementType()) + "]";
    return "?";
}
static int64_t tySize(Type* t) { return t->isSized() ? (int64_t)DL->getTypeAllocSize(t).getFixedValue() : 0; }
static int64_t stSize(Type* t) { return t->isSized() ? (int64_t)DL->getTypeStoreSize(t).getFixedValue() : 0; }

struct FnCtx {
    DenseMap<const Value*, int> ids;
    DenseMap<const BasicBlock*, int> bids;
};
static J::Value intv(const APInt& v)
{
    if (v.getBitWidth() <= 63) return J::Value((int64_t)v.getZExtValue());
    SmallString<40> s;
    v.toStringUnsigned(s);
    return J::Value(std::string(s.str()));
}
static J::Value constant(const Constant* c);
static J::Value gepParts(const GEPOperator* g, std::function<J::Value(const Value*)> val)
{
    APInt off(64, 0);
    MapVector<Value*, APInt> var;
    J::Array vars;
    if (g->collectOffset(*DL, 64, var, off)) {
        for (auto& kv : var) vars.push_back(J::Array{J::Value((int64_t)kv.second.getSExtValue()), val(kv.first), tyStr(kv.first->getType())});
        return J::Array{(int64_t)off.getSExtValue(), std::move(vars)};
    }
    return J::Array{0, "?"};
}
static J::Value constant(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) return J::Array{"i", (int64_t)ci->getBitWidth(), intv(ci->getValue())};
    if (isa<ConstantPointerNull>(c)) return J::Array{"n"};
    if (isa<UndefValue>(c)) return J::Array{"u", tyStr(c->getType())};
    if (auto* f = dyn_cast<Function>(c)) return J::Array{"f", f->getName().str()};
    if (auto* gv = dyn_cast<GlobalVariable>(c)) return J::Array{"g", gv->getName().str()};
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    if (auto* fp = dyn_cast<ConstantFP>(c)) {
        SmallString<32> s;
        fp->getValueAPF().toString(s);
        return J::Array{"d", std::string(s.str())};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce))
            return J::Array{"G", constant(cast<Constant>(g->getPointerOperand())), gepParts(g, [](const Value* v) { return constant(cast<Constant>(v)); })};
        if (ce->isCast()) return J::Array{"c", ce->getOpcodeName(), tyStr(ce->getType()), constant(ce->getOperand(0)), tyStr(ce->getOperand(0)->getType())};
        return J::Array{"?", ce->getOpcodeName()};
    }
    if (isa<ConstantAggregateZero>(c)) return J::Array{"z", tyStr(c->getType()), tySize(c->getType())};
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        J::Array a;
        auto* t = c->getType();
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            int64_t off = 0;
            if (auto* st = dyn_cast<StructType>(t)) off = DL->getStructLayout(st)->getElementOffset(i);
            else off = i * tySize(ca->getOperand(i)->getType());
            a.push_back(J::Array{off, constant(ca->getOperand(i)), stSize(ca->getOperand(i)->getType())});
        }
        return J::Array{"a", std::move(a)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString()) return J::Array{"s", (int64_t)cd->getNumElements()};
        J::Array a;
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            a.push_back(J::Array{(int64_t)(i * cd->getElementByteSize()), constant(cd->getElementAsConstant(i)), (int64_t)cd->getElementByteSize()});
        return J::Array{"a", std::move(a)};
    }
    return J::Array{"?", "const"};
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) {
        err.print(argv[0], errs());
        return 2;
    }
    DL = &m->getDataLayout();
    {
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cam;
        ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        FunctionPassManager fpm;
        fpm.addPass(PromotePass());
        ModulePassManager mpm;
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
        mpm.run(*m, mam);
    }
    J::Object root;
    // reachable functions from entries "vp_*" plus global references
    std::set<const Function*> seen;
    std::vector<const Function*> work;
    for (auto& f : *m)
        if (!f.isDeclaration() && f.getName().starts_with("vp_")) {
            seen.insert(&f);
            work.push_back(&f);
        }
    std::set<const GlobalVariable*> gseen;
    std::function<void(const Value*)> scan = [&](const Value* v) {
        if (auto* f = dyn_cast<Function>(v)) {
            if (seen.insert(f).second) work.push_back(f);
        } else if (auto* gv = dyn_cast<GlobalVariable>(v)) {
            if (gseen.insert(gv).second && gv->hasInitializer()) scan(gv->getInitializer());
        } else if (auto* c = dyn_cast<Constant>(v)) {
            for (auto& o : c->operands()) scan(o);
        }
    };
    while (!work.empty()) {
        auto* f = work.back();
        work.pop_back();
        for (auto& bb : *f)
            for (auto& in : bb)
                for (auto& o : in.operands()) scan(o);
    }
    J::Object fns;
    for (auto* f : seen) {
        J::Object fo;
        fo["dem"] = demangle(f->getName().str());
        fo["ret"] = tyStr(f->getReturnType());
        fo["noreturn"] = f->doesNotReturn();
        fo["nounwind"] = f->doesNotThrow();
        fo["decl"] = f->isDeclaration();
        fo["sret"] = f->hasStructRetAttr();
        J::Array args;
        FnCtx fc;
        int n = 0;
        for (auto& a : f->args()) {
            fc.ids[&a] = n++;
            J::Object ao;
            ao["n"] = a.getName().str();
            ao["t"] = tyStr(a.getType());
            if (a.hasByValAttr()) ao["byval"] = tySize(a.getParamByValType());
            if (a.hasStructRetAttr()) ao["sret"] = tySize(a.getParamStructRetType());
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        fo["vararg"] = f->isVarArg();
        if (f->isDeclaration()) {
            fns[f->getName()] = std::move(fo);
            continue;
        }
        if (auto* sp = f->getSubprogram()) {
            fo["file"] = sp->getFilename().str();
            fo["line"] = (int64_t)sp->getLine();
            // qualified source name
            std::string nm = sp->getName().str();
            fo["name"] = nm;
            J::Array scopes;
            for (auto* s = sp->getScope(); s; s = s->getScope())
                if (!s->getName().empty()) scopes.push_back(s->getName().str());
            fo["scopes"] = std::move(scopes);
        }
        for (auto& bb : *f) {
            fc.bids[&bb] = fc.bids.size();
            for (auto& in : bb)
                if (!in.getType()->isVoidTy()) fc.ids[&in] = n++;
        }
        fo["nvals"] = n;
        std::function<J::Value(const Value*)> val = [&](const Value* v) -> J::Value {
            if (auto* c = dyn_cast<Constant>(v)) return constant(c);
            if (auto* mv = dyn_cast<MetadataAsValue>(v)) { (void)mv; return J::Array{"m"}; }
            if (isa<InlineAsm>(v)) return J::Array{"?", "asm"};
            return J::Value((int64_t)fc.ids.lookup(v));
        };
        DominatorTree dt(*const_cast<Function*>(f));
        LoopInfo li(dt);
        J::Array blocks;
        for (auto& bb : *f) {
            J::Object bo;
            J::Array ins;
            for (auto& in : bb) {
                if (isa<DbgInfoIntrinsic>(in)) continue;
                J::Object io;
                io["o"] = in.getOpcodeName();
                if (!in.getType()->isVoidTy()) {
                    io["d"] = (int64_t)fc.ids.lookup(&in);
                    if (in.hasName()) io["n"] = in.getName().str();
                }
                io["t"] = tyStr(in.getType());
                if (auto& dl = in.getDebugLoc()) {
                    io["l"] = (int64_t)dl.getLine();
                    auto* sc = dyn_cast<DIScope>(dl.getScope());
                    if (sc && f->getSubprogram() && sc->getFilename() != f->getSubprogram()->getFilename()) io["lf"] = sc->getFilename().str();
                }
                if (auto* phi = dyn_cast<PHINode>(&in)) {
                    J::Array a;
                    for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
                        a.push_back(J::Array{(int64_t)fc.bids.lookup(phi->getIncomingBlock(i)), val(phi->getIncomingValue(i))});
                    io["a"] = std::move(a);
                } else if (auto* br = dyn_cast<BranchInst>(&in)) {
                    J::Array s;
                    for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back((int64_t)fc.bids.lookup(br->getSuccessor(i)));
                    io["s"] = std::move(s);
                    if (br->isConditional()) io["a"] = J::Array{val(br->getCondition())};
                } else if (auto* sw = dyn_cast<SwitchInst>(&in)) {
                    J::Array cs;
                    for (auto& c : sw->cases()) cs.push_back(J::Array{intv(c.getCaseValue()->getValue()), (int64_t)fc.bids.lookup(c.getCaseSuccessor())});
                    io["cases"] = std::move(cs);
                    io["def"] = (int64_t)fc.bids.lookup(sw->getDefaultDest());
                    io["a"] = J::Array{val(sw->getCondition())};
                    io["w"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
                } else if (auto* cb = dyn_cast<CallBase>(&in)) {
                    J::Array a, at;
                    for (auto& o : cb->args()) {
                        a.push_back(val(o));
                        at.push_back(tyStr(o->getType()));
                    }
                    io["a"] = std::move(a);
                    io["at"] = std::move(at);
                    io["f"] = val(cb->getCalledOperand());
                    if (auto* iv = dyn_cast<InvokeInst>(&in)) {
                        io["s"] = J::Array{(int64_t)fc.bids.lookup(iv->getNormalDest()), (int64_t)fc.bids.lookup(iv->getUnwindDest())};
                    }
                    if (cb->doesNotThrow()) io["nounwind"] = true;
                    for (unsigned i = 0; i < cb->arg_size(); ++i)
                        if (cb->paramHasAttr(i, Attribute::StructRet)) io["sret"] = tySize(cb->getParamStructRetType(i));
                    for (unsigned i = 0; i < cb->arg_size(); ++i)
                        if (cb->isByValArgument(i)) io["byval"] = J::Array{(int64_t)i, tySize(cb->getParamByValType(i))};
                } else if (auto* ld = dyn_cast<LoadInst>(&in)) {
                    io["a"] = J::Array{val(ld->getPointerOperand())};
                    io["z"] = stSize(ld->getType());
                    if (ld->isAtomic()) io["at"] = (int64_t)ld->getOrdering();
                } else if (auto* st = dyn_cast<StoreInst>(&in)) {
                    io["a"] = J::Array{val(st->getValueOperand()), val(st->getPointerOperand())};
                    io["z"] = stSize(st->getValueOperand()->getType());
                    io["vt"] = tyStr(st->getValueOperand()->getType());
                    if (st->isAtomic()) io["at"] = (int64_t)st->getOrdering();
                } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&in)) {
                    io["a"] = J::Array{val(rmw->getPointerOperand()), val(rmw->getValOperand())};
                    io["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
                    io["z"] = stSize(rmw->getValOperand()->getType());
                } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) {
                    io["a"] = J::Array{val(cx->getPointerOperand()), val(cx->getCompareOperand()), val(cx->getNewValOperand())};
                    io["z"] = stSize(cx->getNewValOperand()->getType());
                } else if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
                    io["a"] = J::Array{val(g->getPointerOperand())};
                    io["g"] = gepParts(cast<GEPOperator>(g), val);
                } else if (auto* al = dyn_cast<AllocaInst>(&in)) {
                    io["z"] = tySize(al->getAllocatedType());
                    io["a"] = J::Array{val(al->getArraySize())};
                } else if (auto* ic = dyn_cast<ICmpInst>(&in)) {
                    io["p"] = ICmpInst::getPredicateName(ic->getPredicate()).str();
                    io["a"] = J::Array{val(in.getOperand(0)), val(in.getOperand(1))};
                    io["ct"] = tyStr(in.getOperand(0)->getType());
                } else if (auto* fcm = dyn_cast<FCmpInst>(&in)) {
                    io["p"] = FCmpInst::getPredicateName(fcm->getPredicate()).str();
                    io["a"] = J::Array{val(in.getOperand(0)), val(in.getOperand(1))};
                } else if (auto* ev = dyn_cast<ExtractValueInst>(&in)) {
                    J::Array ix;
                    for (auto i : ev->indices()) ix.push_back((int64_t)i);
                    io["ix"] = std::move(ix);
                    io["a"] = J::Array{val(in.getOperand(0))};
                } else if (auto* iv = dyn_cast<InsertValueInst>(&in)) {
                    J::Array ix;
                    for (auto i : iv->indices()) ix.push_back((int64_t)i);
                    io["ix"] = std::move(ix);
                    io["a"] = J::Array{val(in.getOperand(0)), val(in.getOperand(1))};
                } else if (auto* lp = dyn_cast<LandingPadInst>(&in)) {
                    io["cleanup"] = lp->isCleanup();
                    J::Array cl;
                    for (unsigned i = 0; i < lp->getNumClauses(); ++i) cl.push_back(lp->isCatch(i) ? (isa<ConstantPointerNull>(lp->getClause(i)) ? "all" : "type") : "filter");
                    io["clauses"] = std::move(cl);
                } else {
                    J::Array a;
                    for (auto& o : in.operands())
                        if (!isa<BasicBlock>(o)) a.push_back(val(o));
                    io["a"] = std::move(a);
                    if (auto* c = dyn_cast<CastInst>(&in)) io["st"] = tyStr(c->getSrcTy());
                    if (auto* bo2 = dyn_cast<OverflowingBinaryOperator>(&in)) {
                        if (bo2->hasNoSignedWrap()) io["nsw"] = true;
                        if (bo2->hasNoUnsignedWrap()) io["nuw"] = true;
                    }
                }
                ins.push_back(std::move(io));
            }
            bo["i"] = std::move(ins);
            if (auto* l = li.getLoopFor(&bb)) {
                J::Array hs;
                for (auto* x = l; x; x = x->getParentLoop()) hs.push_back((int64_t)fc.bids.lookup(x->getHeader()));
                bo["loops"] = std::move(hs);
            }
            blocks.push_back(std::move(bo));
        }
        fo["blocks"] = std::move(blocks);
        fns[f->getName()] = std::move(fo);
    }
    root["functions"] = std::move(fns);
    J::Object gl;
    for (auto* g : gseen) {
        J::Object go;
        go["size"] = tySize(g->getValueType());
        go["const"] = g->isConstant();
        go["tls"] = g->isThreadLocal();
        if (g->hasInitializer()) go["init"] = constant(g->getInitializer());
        gl[g->getName()] = std::move(go);
    }
    root["globals"] = std::move(gl);
    // class layouts
    J::Object types;
    DebugInfoFinder dif;
    dif.processModule(*m);
    for (auto* t : dif.types()) {
        auto* ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->getName().empty() || ct->isForwardDecl()) continue;
        if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) continue;
        std::string scope;
        for (auto* s = ct->getScope(); s; s = s->getScope())
            if (!s->getName().empty()) scope = s->getName().str() + "::" + scope;
        bool keep = scope.find("gmlc::") == 0;
        if (!keep) continue;
        J::Object to;
        to["size"] = (int64_t)(ct->getSizeInBits() / 8);
        J::Array mem;
        for (auto* e : ct->getElements()) {
            auto* d = dyn_cast<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
            std::string tn;
            auto* bt = d->getBaseType();
            while (bt && bt->getName().empty()) {
                auto* dd = dyn_cast<DIDerivedType>(bt);
                if (!dd) break;
                if (dd->getTag() == dwarf::DW_TAG_pointer_type) tn += "*";
                bt = dd->getBaseType();
            }
            if (bt) tn = bt->getName().str() + tn;
            mem.push_back(J::Object{{"n", d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName().str()}, {"o", (int64_t)(d->getOffsetInBits() / 8)}, {"z", (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0)}, {"ty", tn}});
        }
        to["mem"] = std::move(mem);
        types[scope + ct->getName().str()] = std::move(to);
    }
    root["types"] = std::move(types);
    outs() << J::Value(std::move(root));
    return 0;
}
