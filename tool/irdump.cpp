// irdump: read LLVM IR/bitcode produced from /repo's sources and print it as JSON lines, one object per
// global variable or function, with every type size, field offset and GEP offset resolved by LLVM's own
// DataLayout, and the natural loops found by LLVM's own LoopInfo.  No semantic decision is taken here.
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static const DataLayout* DL;
static raw_ostream* O;

static void str(StringRef s) {
    *O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') *O << '\\' << (char)c;
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
        else *O << (char)c;
    }
    *O << '"';
}

// types: ["i",bits] ["f",4|8|16] ["p"] ["v"] ["s",size,[[off,type]...]] ["a",n,stride,type]
static std::map<Type*, int> type_ids;
static std::vector<std::string> type_defs;
static int type_id(Type* t) {
    auto it = type_ids.find(t);
    if (it != type_ids.end()) return it->second;
    std::string d;
    raw_string_ostream os(d);
    if (t->isIntegerTy()) os << "[\"i\"," << t->getIntegerBitWidth() << "]";
    else if (t->isFloatTy()) os << "[\"f\",4]";
    else if (t->isDoubleTy()) os << "[\"f\",8]";
    else if (t->isX86_FP80Ty()) os << "[\"f\",16]";
    else if (t->isPointerTy()) os << "[\"p\"]";
    else if (auto* s = dyn_cast<StructType>(t)) {
        if (s->isOpaque()) os << "[\"v\"]";
        else {
            const StructLayout* l = DL->getStructLayout(s);
            std::vector<int> ids;
            for (unsigned i = 0; i < s->getNumElements(); ++i) ids.push_back(type_id(s->getElementType(i)));
            os << "[\"s\"," << (uint64_t)l->getSizeInBytes() << ",[";
            for (unsigned i = 0; i < ids.size(); ++i)
                os << (i ? "," : "") << "[" << (uint64_t)l->getElementOffset(i) << "," << ids[i] << "]";
            os << "]]";
        }
    } else if (auto* a = dyn_cast<ArrayType>(t)) {
        int e = type_id(a->getElementType());
        os << "[\"a\"," << a->getNumElements() << "," << (uint64_t)DL->getTypeAllocSize(a->getElementType()) << "," << e << "]";
    } else if (auto* a = dyn_cast<FixedVectorType>(t)) {
        int e = type_id(a->getElementType());
        os << "[\"a\"," << a->getNumElements() << "," << (uint64_t)DL->getTypeAllocSize(a->getElementType()) << "," << e << "]";
    } else os << "[\"v\"]";
    os.flush();
    int id = type_defs.size();
    type_defs.push_back(d);
    type_ids[t] = id;
    return id;
}

static std::map<const Value*, int> ids;

static void constant(const Constant* c);

static void apint(const APInt& v) {
    SmallString<40> s;
    v.toString(s, 10, true);
    *O << s;
}

static void apfloat(const APFloat& f) {
    // exact: hex float text for finite values
    if (f.isNaN()) { *O << "\"nan\""; return; }
    if (f.isInfinity()) { *O << (f.isNegative() ? "\"-inf\"" : "\"inf\""); return; }
    char b[128];
    unsigned n = f.convertToHexString(b, 0, false, APFloat::rmNearestTiesToEven);
    *O << '"' << StringRef(b, n) << '"';
}

static void constant(const Constant* c) {
    if (auto* x = dyn_cast<ConstantInt>(c)) { *O << "[\"ci\","; apint(x->getValue()); *O << "]"; return; }
    if (auto* x = dyn_cast<ConstantFP>(c)) { *O << "[\"cf\","; apfloat(x->getValueAPF()); *O << "]"; return; }
    if (isa<ConstantPointerNull>(c)) { *O << "[\"null\"]"; return; }
    if (isa<UndefValue>(c)) { *O << "[\"undef\"," << type_id(c->getType()) << "]"; return; }
    if (isa<ConstantAggregateZero>(c)) { *O << "[\"zero\"," << type_id(c->getType()) << "]"; return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        if (auto* al = dyn_cast<GlobalAlias>(g)) {
            if (auto* b = dyn_cast<GlobalObject>(al->getAliaseeObject())) g = b;
        }
        *O << "[\"g\","; str(g->getName()); *O << "]"; return;
    }
    if (auto* x = dyn_cast<ConstantDataSequential>(c)) {
        *O << "[\"agg\"," << type_id(c->getType()) << ",[";
        for (unsigned i = 0; i < x->getNumElements(); ++i) { if (i) *O << ","; constant(x->getElementAsConstant(i)); }
        *O << "]]"; return;
    }
    if (auto* x = dyn_cast<ConstantAggregate>(c)) {
        *O << "[\"agg\"," << type_id(c->getType()) << ",[";
        for (unsigned i = 0; i < x->getNumOperands(); ++i) { if (i) *O << ","; constant(x->getOperand(i)); }
        *O << "]]"; return;
    }
    if (auto* x = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(x)) {
            APInt off(DL->getIndexTypeSizeInBits(g->getType()), 0);
            if (g->accumulateConstantOffset(*DL, off)) {
                *O << "[\"cgep\","; constant(cast<Constant>(g->getPointerOperand())); *O << ","; apint(off); *O << "]"; return;
            }
        }
        if (x->getOpcode() == Instruction::BitCast || x->getOpcode() == Instruction::AddrSpaceCast ||
            x->getOpcode() == Instruction::IntToPtr || x->getOpcode() == Instruction::PtrToInt) {
            constant(x->getOperand(0)); return;
        }
        *O << "[\"cexpr\","; str(x->getOpcodeName());
        for (unsigned i = 0; i < x->getNumOperands(); ++i) { *O << ","; constant(x->getOperand(i)); }
        *O << "]"; return;
    }
    *O << "[\"unk\"]";
}

static void operand(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) { constant(c); return; }
    auto it = ids.find(v);
    if (it != ids.end()) *O << it->second;
    else *O << "[\"unk\"]";
}

static std::map<const BasicBlock*, int> bids;

static void instruction(const Instruction& I) {
    // [op, dest, type, ...]
    *O << "[";
    str(I.getOpcodeName());
    auto it = ids.find(&I);
    *O << "," << (it == ids.end() ? -1 : it->second) << "," << type_id(I.getType());
    auto ops = [&](unsigned from = 0) { for (unsigned i = from; i < I.getNumOperands(); ++i) { *O << ","; operand(I.getOperand(i)); } };
    if (auto* x = dyn_cast<AllocaInst>(&I)) {
        *O << "," << (uint64_t)DL->getTypeAllocSize(x->getAllocatedType()) << ","; operand(x->getArraySize());
    } else if (auto* x = dyn_cast<StoreInst>(&I)) {
        *O << "," << type_id(x->getValueOperand()->getType()) << ","; operand(x->getValueOperand()); *O << ","; operand(x->getPointerOperand());
    } else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
        *O << ","; operand(x->getPointerOperand());
        unsigned bw = DL->getIndexTypeSizeInBits(x->getType());
        MapVector<Value*, APInt> var; APInt c(bw, 0);
        if (!cast<GEPOperator>(x)->collectOffset(*DL, bw, var, c)) { *O << ",null"; }
        else { *O << ","; apint(c); *O << ",["; bool f = true; for (auto& p : var) { if (!f) *O << ","; f = false; *O << "["; operand(p.first); *O << ","; apint(p.second); *O << "]"; } *O << "]"; }
    } else if (auto* x = dyn_cast<CmpInst>(&I)) {
        *O << ","; str(CmpInst::getPredicateName(x->getPredicate())); *O << "," << type_id(x->getOperand(0)->getType()); ops();
    } else if (auto* x = dyn_cast<CastInst>(&I)) {
        *O << "," << type_id(x->getSrcTy()); ops();
    } else if (auto* x = dyn_cast<PHINode>(&I)) {
        *O << ",[";
        for (unsigned i = 0; i < x->getNumIncomingValues(); ++i) { if (i) *O << ","; *O << "[" << bids[x->getIncomingBlock(i)] << ","; operand(x->getIncomingValue(i)); *O << "]"; }
        *O << "]";
    } else if (auto* x = dyn_cast<BranchInst>(&I)) {
        if (x->isConditional()) { *O << ","; operand(x->getCondition()); *O << "," << bids[x->getSuccessor(0)] << "," << bids[x->getSuccessor(1)]; }
        else *O << ",null," << bids[x->getSuccessor(0)] << ",-1";
    } else if (auto* x = dyn_cast<SwitchInst>(&I)) {
        *O << ","; operand(x->getCondition()); *O << "," << bids[x->getDefaultDest()] << ",[";
        bool f = true;
        for (auto& c : x->cases()) { if (!f) *O << ","; f = false; *O << "["; apint(c.getCaseValue()->getValue()); *O << "," << bids[c.getCaseSuccessor()] << "]"; }
        *O << "]";
    } else if (auto* x = dyn_cast<CallBase>(&I)) {
        *O << ",";
        if (x->isInlineAsm()) *O << "[\"asm\"]"; else operand(x->getCalledOperand()->stripPointerCasts());
        *O << ",[";
        for (unsigned i = 0; i < x->arg_size(); ++i) { if (i) *O << ","; operand(x->getArgOperand(i)); }
        *O << "],[";
        for (unsigned i = 0; i < x->arg_size(); ++i) { if (i) *O << ","; *O << type_id(x->getArgOperand(i)->getType()); }
        *O << "],[";
        for (unsigned i = 0; i < x->arg_size(); ++i) { if (i) *O << ","; if (x->isByValArgument(i)) *O << (uint64_t)DL->getTypeAllocSize(x->getParamByValType(i)); else *O << 0; }
        *O << "]";
        if (auto* v = dyn_cast<InvokeInst>(x)) *O << "," << bids[v->getNormalDest()] << "," << bids[v->getUnwindDest()];
    } else if (auto* x = dyn_cast<LandingPadInst>(&I)) {
        *O << "," << (x->isCleanup() ? "true" : "false") << ",[";
        for (unsigned i = 0; i < x->getNumClauses(); ++i) { if (i) *O << ","; *O << "[" << (x->isCatch(i) ? "true" : "false") << ","; constant(cast<Constant>(x->getClause(i))); *O << "]"; }
        *O << "]";
    } else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
        *O << ","; operand(x->getAggregateOperand()); *O << ",["; for (unsigned i = 0; i < x->getNumIndices(); ++i) *O << (i ? "," : "") << x->getIndices()[i]; *O << "]";
    } else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
        *O << ","; operand(x->getAggregateOperand()); *O << ","; operand(x->getInsertedValueOperand()); *O << ",["; for (unsigned i = 0; i < x->getNumIndices(); ++i) *O << (i ? "," : "") << x->getIndices()[i]; *O << "]";
    } else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) {
        *O << ","; str(AtomicRMWInst::getOperationName(x->getOperation())); ops();
    } else if (auto* x = dyn_cast<ShuffleVectorInst>(&I)) {
        ops(); *O << ",["; auto m = x->getShuffleMask(); for (unsigned i = 0; i < m.size(); ++i) *O << (i ? "," : "") << m[i]; *O << "]";
    } else {
        ops();
    }
    *O << "]";
}

int main(int argc, char** argv) {
    if (argc < 3) { errs() << "usage: irdump OUT IN.bc [IN2.bc ...]\n"; return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (int i = 2; i < argc; ++i) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("irdump", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
    }
    std::error_code ec;
    raw_fd_ostream out(argv[1], ec);
    if (ec) return 2;
    O = &out;
    DL = &M->getDataLayout();
    // Reachable from functions named vp_contract_* (the harness entry points)
    std::vector<const GlobalValue*> work;
    std::set<const GlobalValue*> seen;
    auto push = [&](const GlobalValue* g) {
        if (auto* al = dyn_cast<GlobalAlias>(g)) { if (auto* b = dyn_cast<GlobalObject>(al->getAliaseeObject())) g = b; }
        if (seen.insert(g).second) work.push_back(g);
    };
    for (auto& f : *M) if (!f.isDeclaration() && (f.getName().starts_with("vp_contract_") || f.getName().starts_with("vp_stub_"))) push(&f);
    std::set<const Constant*> cseen;
    std::function<void(const Value*)> visit = [&](const Value* v) {
        auto* c = dyn_cast<Constant>(v);
        if (!c) return;
        if (auto* g = dyn_cast<GlobalValue>(c)) { push(g); return; }
        if (!cseen.insert(c).second) return;
        for (auto& o : c->operands()) visit(o.get());
    };
    std::vector<const GlobalVariable*> gvs;
    std::vector<const Function*> fns;
    for (size_t w = 0; w < work.size(); ++w) {
        auto* g = work[w];
        if (auto* f = dyn_cast<Function>(g)) {
            fns.push_back(f);
            for (auto& b : *f) for (auto& i : b) for (auto& o : i.operands()) visit(o.get());
        } else if (auto* v = dyn_cast<GlobalVariable>(g)) {
            gvs.push_back(v);
            if (v->hasInitializer()) visit(v->getInitializer());
        }
    }
    for (auto* v : gvs) {
        out << "{\"k\":\"g\",\"n\":"; str(v->getName());
        out << ",\"c\":" << (v->isConstant() ? "true" : "false");
        out << ",\"sz\":" << (v->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 0);
        out << ",\"t\":" << type_id(v->getValueType());
        out << ",\"tl\":" << (v->isThreadLocal() ? "true" : "false");
        out << ",\"init\":";
        if (v->hasInitializer()) constant(v->getInitializer()); else out << "null";
        out << "}\n";
    }
    for (auto* f : fns) {
        ids.clear(); bids.clear();
        int n = 0;
        for (auto& a : f->args()) ids[&a] = n++;
        int nb = 0;
        for (auto& b : *f) { bids[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
        out << "{\"k\":\"f\",\"n\":"; str(f->getName());
        out << ",\"d\":"; str(demangle(f->getName().str()));
        out << ",\"nv\":" << n << ",\"rt\":" << type_id(f->getReturnType()) << ",\"args\":[";
        bool fst = true;
        for (auto& a : f->args()) { if (!fst) out << ","; fst = false; out << type_id(a.getType()); }
        out << "],\"decl\":" << (f->isDeclaration() ? "true" : "false");
        if (auto* sp = f->getSubprogram()) { out << ",\"file\":"; str(sp->getFilename()); out << ",\"line\":" << sp->getLine(); }
        if (!f->isDeclaration()) {
            out << ",\"b\":[";
            bool fb = true;
            for (auto& b : *f) {
                if (!fb) out << ",";
                fb = false;
                out << "[";
                bool fi = true;
                for (auto& i : b) {
                    if (isa<DbgInfoIntrinsic>(i)) continue;
                    if (!fi) out << ",";
                    fi = false;
                    instruction(i);
                }
                out << "]";
            }
            out << "],\"loops\":[";
            DominatorTree DT(*const_cast<Function*>(f));
            LoopInfo LI(DT);
            bool fl = true;
            for (auto* l : LI.getLoopsInPreorder()) {
                if (!fl) out << ",";
                fl = false;
                int line = -1;
                if (auto d = l->getStartLoc()) line = d.getLine();
                out << "[" << bids[l->getHeader()] << "," << line << ",[";
                bool f2 = true;
                for (auto* b : l->blocks()) { if (!f2) out << ","; f2 = false; out << bids[b]; }
                out << "]]";
            }
            out << "]";
        }
        out << "}\n";
    }
    out << "{\"k\":\"t\",\"t\":[";
    for (size_t i = 0; i < type_defs.size(); ++i) out << (i ? "," : "") << type_defs[i];
    out << "]}\n";
    return 0;
}
