#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
using namespace llvm;

std::unordered_map<const Function*, DFunc*> g_funcs;
std::vector<DFunc*> g_funcByIdx;
std::vector<V> g_consts;
std::vector<DExtra> g_extras;
std::unordered_map<const GlobalVariable*, uint64_t> g_gaddr;
std::unordered_map<uint64_t, const GlobalVariable*> g_gByAddr;
const DataLayout* DL;
Module* M;
std::map<std::string, int> g_builtins;

unsigned typeWidth(Type* t)
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}

DFunc* getFunc(Function* F)
{
    auto it = g_funcs.find(F);
    if (it != g_funcs.end()) return it->second;
    DFunc* d = new DFunc;
    d->F = F;
    d->name = F->getName().str();
    d->varargs = F->isVarArg();
    d->addr = (1ULL << 32) + 16 * (g_funcByIdx.size() + 1);
    g_funcs[F] = d;
    g_funcByIdx.push_back(d);
    return d;
}

DFunc* funcAt(uint64_t a)
{
    if ((a >> 32) != 1) return nullptr;
    uint64_t o = a & 0xffffffff;
    if (o % 16 || o == 0 || o / 16 > g_funcByIdx.size()) return nullptr;
    return g_funcByIdx[o / 16 - 1];
}

static V mkV(u128 v, unsigned w)
{
    if (w <= 64) return V((uint64_t)(v & wmask(w)));
    return V(mkConst(v, w), 0);
}

V constValue(const Constant* C)
{
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return V(ci->getZExtValue());
        const APInt& a = ci->getValue();
        if (w > 128) return V(0);
        u128 v = a.getRawData()[0];
        if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
        return V(mkConst(v, w), 0);
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        if (cf->getType()->isX86_FP80Ty()) {
            // represent as 64-bit double payload
            APFloat f = cf->getValueAPF(); bool li;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            return V(f.bitcastToAPInt().getZExtValue());
        }
        return V(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    }
    if (isa<ConstantPointerNull>(C)) return V(0);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        Type* t = C->getType();
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            std::vector<V> v; std::vector<uint16_t> w;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i) {
                Constant* e = C->getAggregateElement(i);
                v.push_back(constValue(e));
                w.push_back(typeWidth(e->getType()));
            }
            return V(mkAgg(v, w), 0);
        }
        unsigned w = typeWidth(t);
        return w > 64 && w != 80 ? V(mkConst(0, w), 0) : V(0);
    }
    if (auto* F = dyn_cast<Function>(C)) return V(getFunc(const_cast<Function*>(F))->addr);
    if (auto* G = dyn_cast<GlobalVariable>(C)) {
        auto it = g_gaddr.find(G);
        return V(it == g_gaddr.end() ? 0 : it->second);
    }
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constValue(A->getAliasee());
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C) || isa<ConstantVector>(C)) {
        std::vector<V> v; std::vector<uint16_t> w;
        for (unsigned i = 0;; ++i) {
            Constant* e = C->getAggregateElement(i);
            if (!e) break;
            v.push_back(constValue(e));
            w.push_back(typeWidth(e->getType()));
        }
        return V(mkAgg(v, w), 0);
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto* G = cast<GEPOperator>(CE);
            if (!G->accumulateConstantOffset(*DL, off)) fatal("non-constant constant GEP");
            V b = constValue(cast<Constant>(G->getPointerOperand()));
            return V(b.c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            V b = constValue(CE->getOperand(0));
            return V(m64(b.c, typeWidth(CE->getType()) ? typeWidth(CE->getType()) : 64));
        }
        case Instruction::Trunc: { V b = constValue(CE->getOperand(0)); return V(m64(b.c, typeWidth(CE->getType()))); }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: case Instruction::And: case Instruction::Or: case Instruction::Shl: case Instruction::LShr: {
            uint64_t a = constValue(CE->getOperand(0)).c, b = constValue(CE->getOperand(1)).c;
            unsigned w = typeWidth(CE->getType());
            switch (CE->getOpcode()) {
            case Instruction::Add: return V(m64(a + b, w));
            case Instruction::Sub: return V(m64(a - b, w));
            case Instruction::Mul: return V(m64(a * b, w));
            case Instruction::Xor: return V(a ^ b);
            case Instruction::And: return V(a & b);
            case Instruction::Or: return V(a | b);
            case Instruction::Shl: return V(m64(a << b, w));
            default: return V(a >> b);
            }
        }
        case Instruction::ICmp: {
            uint64_t a = constValue(CE->getOperand(0)).c, b = constValue(CE->getOperand(1)).c;
            switch (CE->getPredicate()) {
            case CmpInst::ICMP_EQ: return V(a == b);
            case CmpInst::ICMP_NE: return V(a != b);
            case CmpInst::ICMP_ULT: return V(a < b);
            case CmpInst::ICMP_UGT: return V(a > b);
            default: break;
            }
            break;
        }
        case Instruction::Select:
            return constValue(constValue(CE->getOperand(0)).c ? CE->getOperand(1) : CE->getOperand(2));
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os);
    fatal("unsupported constant: " + s);
    return V(0);
}

// write initialiser into raw bytes
void writeConst(uint8_t* p, const Constant* C)
{
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (t->isStructTy()) {
        const StructLayout* SL = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); ++i)
            writeConst(p + SL->getElementOffset(i), C->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy()) {
        if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
            StringRef r = CD->getRawDataValues();
            memcpy(p, r.data(), r.size());
            return;
        }
        uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < t->getArrayNumElements(); ++i) writeConst(p + i * es, C->getAggregateElement(i));
        return;
    }
    if (t->isVectorTy()) {
        uint64_t es = DL->getTypeAllocSize(t->getScalarType());
        for (unsigned i = 0; i < cast<FixedVectorType>(t)->getNumElements(); ++i) writeConst(p + i * es, C->getAggregateElement(i));
        return;
    }
    V v = constValue(C);
    unsigned w = typeWidth(t);
    if (w > 64 && v.e) { u128 x = v.e->val; memcpy(p, &x, (w + 7) / 8); return; }
    memcpy(p, &v.c, std::min<unsigned>(8, (w + 7) / 8));
}

struct Ctx {
    DFunc* d;
    std::unordered_map<const Value*, int> regs;
    std::unordered_map<const BasicBlock*, int> blocks;
    std::unordered_map<const Value*, int> cmap;
    int opnd(const Value* v)
    {
        auto it = regs.find(v);
        if (it != regs.end()) return it->second;
        if (auto* C = dyn_cast<Constant>(v)) {
            auto jt = cmap.find(v);
            if (jt != cmap.end()) return jt->second;
            g_consts.push_back(constValue(C));
            int i = ~(int)(g_consts.size() - 1);
            cmap[v] = i;
            return i;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { g_consts.push_back(V(0)); return ~(int)(g_consts.size() - 1); }
        fatal("unknown operand");
        return 0;
    }
};

void decodeFunc(DFunc* d)
{
    if (d->decoded) return;
    d->decoded = true;
    Function* F = d->F;
    Ctx cx;
    cx.d = d;
    for (auto& a : F->args()) cx.regs[&a] = d->nregs++;
    d->nargs = d->nregs;
    int bi = 0;
    for (auto& B : *F) {
        cx.blocks[&B] = bi++;
        for (auto& I : B) if (!I.getType()->isVoidTy()) cx.regs[&I] = d->nregs++;
    }
    d->blocks.resize(bi);
    bi = 0;
    for (auto& B : *F) {
        DBlock& db = d->blocks[bi++];
        for (auto& I : B) {
            if (auto* P = dyn_cast<PHINode>(&I)) {
                DPhi p;
                p.dst = cx.regs[P];
                p.w = typeWidth(P->getType());
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                    p.in.push_back({ cx.blocks[P->getIncomingBlock(i)], cx.opnd(P->getIncomingValue(i)) });
                db.phis.push_back(p);
                continue;
            }
            DInst n;
            n.I = &I;
            if (!I.getType()->isVoidTy()) n.dst = cx.regs[&I];
            n.w = typeWidth(I.getType());
            auto A = [&](unsigned k) { return cx.opnd(I.getOperand(k)); };
            auto newExtra = [&]() -> DExtra& { g_extras.emplace_back(); n.extra = g_extras.size() - 1; return g_extras.back(); };
            bool vec = I.getType()->isVectorTy();
            for (auto& o : I.operands()) if (o->getType()->isVectorTy()) vec = true;
            auto elw = [&](Type* t) { return typeWidth(t->getScalarType()); };
            unsigned oc = I.getOpcode();
            switch (oc) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
            case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                static const std::map<unsigned, int> mp = { { Instruction::Add, E_ADD }, { Instruction::Sub, E_SUB }, { Instruction::Mul, E_MUL },
                    { Instruction::UDiv, E_UDIV }, { Instruction::SDiv, E_SDIV }, { Instruction::URem, E_UREM }, { Instruction::SRem, E_SREM },
                    { Instruction::And, E_AND }, { Instruction::Or, E_OR }, { Instruction::Xor, E_XOR }, { Instruction::Shl, E_SHL },
                    { Instruction::LShr, E_LSHR }, { Instruction::AShr, E_ASHR }, { Instruction::FAdd, E_FADD }, { Instruction::FSub, E_FSUB },
                    { Instruction::FMul, E_FMUL }, { Instruction::FDiv, E_FDIV }, { Instruction::FRem, E_FREM } };
                n.op = vec ? I_VBIN : I_BIN;
                n.sub = mp.at(oc);
                n.a = A(0); n.b = A(1);
                if (vec) n.w = elw(I.getType());
                if (n.w == 80) n.op = I_UNSUPPORTED;
                break;
            }
            case Instruction::FNeg: n.op = vec ? I_UNSUPPORTED : I_FNEG; n.a = A(0); break;
            case Instruction::ICmp: {
                n.op = vec ? I_UNSUPPORTED : I_ICMP;
                n.a = A(0); n.b = A(1);
                n.w2 = typeWidth(I.getOperand(0)->getType());
                switch (cast<ICmpInst>(I).getPredicate()) {
                case CmpInst::ICMP_EQ: n.sub = E_EQ; break;
                case CmpInst::ICMP_NE: n.sub = E_EQ; n.neg = 1; break;
                case CmpInst::ICMP_ULT: n.sub = E_ULT; break;
                case CmpInst::ICMP_ULE: n.sub = E_ULE; break;
                case CmpInst::ICMP_UGT: n.sub = E_ULT; n.swap = 1; break;
                case CmpInst::ICMP_UGE: n.sub = E_ULE; n.swap = 1; break;
                case CmpInst::ICMP_SLT: n.sub = E_SLT; break;
                case CmpInst::ICMP_SLE: n.sub = E_SLE; break;
                case CmpInst::ICMP_SGT: n.sub = E_SLT; n.swap = 1; break;
                case CmpInst::ICMP_SGE: n.sub = E_SLE; n.swap = 1; break;
                default: break;
                }
                if (n.swap) std::swap(n.a, n.b);
                break;
            }
            case Instruction::FCmp:
                n.op = vec ? I_UNSUPPORTED : I_FCMP;
                n.a = A(0); n.b = A(1);
                n.w2 = typeWidth(I.getOperand(0)->getType());
                n.sub = cast<FCmpInst>(I).getPredicate();
                if (n.w2 == 80) n.op = I_UNSUPPORTED;
                break;
            case Instruction::Load: {
                auto& L = cast<LoadInst>(I);
                n.op = I_LOAD; n.a = A(0);
                n.imm = DL->getTypeStoreSize(I.getType());
                if (L.isAtomic()) n.atomic = (uint8_t)L.getOrdering();
                if (vec || I.getType()->isStructTy() || I.getType()->isArrayTy()) { DExtra& x = newExtra(); x.ty = I.getType(); }
                if (n.w == 80) n.op = I_UNSUPPORTED;
                break;
            }
            case Instruction::Store: {
                auto& S = cast<StoreInst>(I);
                n.op = I_STORE; n.a = A(0); n.b = A(1);
                Type* t = S.getValueOperand()->getType();
                n.w = typeWidth(t);
                n.imm = DL->getTypeStoreSize(t);
                if (S.isAtomic()) n.atomic = (uint8_t)S.getOrdering();
                if (vec || t->isStructTy() || t->isArrayTy()) { DExtra& x = newExtra(); x.ty = t; }
                if (n.w == 80) n.op = I_UNSUPPORTED;
                break;
            }
            case Instruction::Alloca: {
                auto& AI = cast<AllocaInst>(I);
                n.op = I_ALLOCA;
                n.imm = DL->getTypeAllocSize(AI.getAllocatedType());
                n.a = A(0);
                break;
            }
            case Instruction::GetElementPtr: {
                if (vec) { n.op = I_UNSUPPORTED; break; }
                n.op = I_GEP;
                n.a = A(0);
                int64_t off = 0;
                std::vector<GepTerm> terms;
                for (gep_type_iterator GTI = gep_type_begin(&I), E = gep_type_end(&I); GTI != E; ++GTI) {
                    Value* op = GTI.getOperand();
                    if (StructType* ST = GTI.getStructTypeOrNull()) {
                        off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                    } else {
                        int64_t sz = DL->getTypeAllocSize(GTI.getIndexedType());
                        if (auto* CI = dyn_cast<ConstantInt>(op)) off += CI->getSExtValue() * sz;
                        else terms.push_back({ cx.opnd(op), (uint16_t)typeWidth(op->getType()), sz });
                    }
                }
                n.imm = (uint64_t)off;
                if (!terms.empty()) newExtra().gep = terms;
                break;
            }
            case Instruction::ZExt: n.op = vec ? I_UNSUPPORTED : I_ZEXT; n.a = A(0); n.w2 = typeWidth(I.getOperand(0)->getType()); break;
            case Instruction::SExt: n.op = vec ? I_UNSUPPORTED : I_SEXT; n.a = A(0); n.w2 = typeWidth(I.getOperand(0)->getType()); break;
            case Instruction::Trunc: n.op = vec ? I_UNSUPPORTED : I_TRUNC; n.a = A(0); n.w2 = typeWidth(I.getOperand(0)->getType()); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned w2 = typeWidth(I.getOperand(0)->getType());
                n.w2 = w2;
                n.op = n.w == w2 ? I_MOV : n.w < w2 ? I_TRUNC : I_ZEXT;
                n.a = A(0);
                break;
            }
            case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
                n.op = I_MOV; n.a = A(0);
                if (oc == Instruction::BitCast && I.getOperand(0)->getType()->isVectorTy() != I.getType()->isVectorTy()) n.op = I_UNSUPPORTED;
                break;
            case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                n.op = vec ? I_UNSUPPORTED : I_F1;
                n.a = A(0);
                n.w2 = typeWidth(I.getOperand(0)->getType());
                n.sub = oc == Instruction::FPToSI ? E_FTOSI : oc == Instruction::FPToUI ? E_FTOUI : oc == Instruction::SIToFP ? E_SITOF : oc == Instruction::UIToFP ? E_UITOF : E_FTOF;
                if (n.w == 80 || n.w2 == 80) {
                    // long double is modelled as double
                    if (oc == Instruction::FPTrunc || oc == Instruction::FPExt) {
                        n.op = I_F1; if (n.w == 80) n.w = 64; if (n.w2 == 80) n.w2 = 64;
                        if (n.w == n.w2) n.op = I_MOV;
                    } else { if (n.w == 80) n.w = 64; if (n.w2 == 80) n.w2 = 64; }
                }
                break;
            case Instruction::Select:
                n.op = I_SELECT; n.a = A(0); n.b = A(1); n.c = A(2);
                if (vec && I.getOperand(0)->getType()->isVectorTy()) n.op = I_UNSUPPORTED;
                break;
            case Instruction::Br: {
                auto& Bi = cast<BranchInst>(I);
                if (Bi.isUnconditional()) { n.op = I_BR; n.t0 = cx.blocks[Bi.getSuccessor(0)]; }
                else { n.op = I_CBR; n.a = cx.opnd(Bi.getCondition()); n.t0 = cx.blocks[Bi.getSuccessor(0)]; n.t1 = cx.blocks[Bi.getSuccessor(1)]; }
                break;
            }
            case Instruction::Switch: {
                auto& S = cast<SwitchInst>(I);
                n.op = I_SWITCH;
                n.a = cx.opnd(S.getCondition());
                n.w2 = typeWidth(S.getCondition()->getType());
                n.t0 = cx.blocks[S.getDefaultDest()];
                std::vector<std::pair<u128, int>> cs;
                for (auto& c : S.cases()) cs.push_back({ c.getCaseValue()->getZExtValue(), cx.blocks[c.getCaseSuccessor()] });
                newExtra().cases = cs;
                break;
            }
            case Instruction::Ret:
                n.op = I_RET;
                n.imm = I.getNumOperands();
                if (n.imm) n.a = A(0);
                break;
            case Instruction::Unreachable: n.op = I_UNREACHABLE; break;
            case Instruction::Call: case Instruction::Invoke: {
                auto& CB = cast<CallBase>(I);
                n.op = I_CALL;
                std::vector<int32_t> args; std::vector<uint16_t> argw; std::vector<uint32_t> bv;
                for (unsigned k = 0; k < CB.arg_size(); ++k) {
                    args.push_back(cx.opnd(CB.getArgOperand(k)));
                    argw.push_back(typeWidth(CB.getArgOperand(k)->getType()));
                    bv.push_back(CB.isByValArgument(k) ? (uint32_t)DL->getTypeAllocSize(CB.getParamByValType(k)) : 0);
                }
                int callee = 0;
                Value* cv = CB.getCalledOperand()->stripPointerCasts();
                Function* cf = dyn_cast<Function>(cv);
                if (!cf) if (auto* GA = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
                if (!cf) callee = cx.opnd(CB.getCalledOperand());
                DExtra& x = newExtra();
                x.args = args; x.argw = argw; x.byvalSize = bv;
                if (isa<InlineAsm>(cv)) { x.builtin = B_INLINEASM; x.calleeName = "inline asm"; }
                else if (cf) {
                    x.callee = getFunc(cf);
                    x.calleeName = cf->getName().str();
                    if (cf->isIntrinsic()) x.builtin = intrinsicBuiltin(cf);
                    else if (cf->isDeclaration() || g_forced.count(x.calleeName)) {
                        auto it = g_builtins.find(x.calleeName);
                        x.builtin = it == g_builtins.end() ? (cf->isDeclaration() ? B_UNRESOLVED : -1) : it->second;
                    }
                }
                n.a = callee;
                if (auto* Inv = dyn_cast<InvokeInst>(&I)) {
                    g_extras[n.extra].isInvoke = true;
                    n.t0 = cx.blocks[Inv->getNormalDest()];
                    n.t1 = cx.blocks[Inv->getUnwindDest()];
                }
                if (x.builtin == B_NOP) { if (isa<InvokeInst>(&I)) { n.op = I_BR; } else continue; }
                break;
            }
            case Instruction::LandingPad: {
                auto& L = cast<LandingPadInst>(I);
                n.op = I_LANDINGPAD;
                std::vector<int32_t> cl; std::vector<uint8_t> fl;
                for (unsigned k = 0; k < L.getNumClauses(); ++k) {
                    if (L.isCatch(k)) { cl.push_back(cx.opnd(L.getClause(k))); fl.push_back(0); }
                    else { cl.push_back(0); fl.push_back(1); }
                }
                DExtra& x = newExtra();
                x.clauses = cl; x.isFilter = fl; x.cleanup = L.isCleanup();
                break;
            }
            case Instruction::Resume: n.op = I_RESUME; n.a = A(0); break;
            case Instruction::ExtractValue: {
                n.op = I_EXTRACT; n.a = A(0);
                auto& E = cast<ExtractValueInst>(I);
                std::vector<unsigned> id(E.idx_begin(), E.idx_end());
                newExtra().idx = id;
                break;
            }
            case Instruction::InsertValue: {
                n.op = I_INSERT; n.a = A(0); n.b = A(1);
                auto& E = cast<InsertValueInst>(I);
                n.w2 = typeWidth(I.getOperand(1)->getType());
                std::vector<unsigned> id(E.idx_begin(), E.idx_end());
                newExtra().idx = id;
                break;
            }
            case Instruction::AtomicRMW: {
                auto& R = cast<AtomicRMWInst>(I);
                n.op = I_RMW; n.a = A(0); n.b = A(1); n.sub = R.getOperation();
                n.imm = DL->getTypeStoreSize(R.getValOperand()->getType());
                n.atomic = (uint8_t)R.getOrdering();
                break;
            }
            case Instruction::AtomicCmpXchg: {
                auto& R = cast<AtomicCmpXchgInst>(I);
                n.op = I_CMPXCHG; n.a = A(0); n.b = A(1); n.c = A(2);
                n.w = typeWidth(R.getCompareOperand()->getType());
                n.imm = (n.w + 7) / 8;
                n.atomic = (uint8_t)R.getSuccessOrdering();
                n.w2 = (uint16_t)R.getFailureOrdering();
                break;
            }
            case Instruction::Fence: n.op = I_FENCE; n.atomic = (uint8_t)cast<FenceInst>(I).getOrdering(); break;
            case Instruction::ExtractElement: n.op = I_EXTELT; n.a = A(0); n.b = A(1); break;
            case Instruction::InsertElement: n.op = I_INSELT; n.a = A(0); n.b = A(1); n.c = A(2); n.w2 = elw(I.getType()); break;
            case Instruction::ShuffleVector: {
                n.op = I_SHUFFLE; n.a = A(0); n.b = A(1);
                auto& S = cast<ShuffleVectorInst>(I);
                std::vector<int> mk(S.getShuffleMask().begin(), S.getShuffleMask().end());
                newExtra().mask = mk;
                break;
            }
            default: n.op = I_UNSUPPORTED; break;
            }
            db.insts.push_back(n);
        }
    }
}
