// decoding and main loop
static FuncInfo* getFunc(const Function* F)
{
    auto& p = funcs[F];
    if (!p)
    {
        p.reset(new FuncInfo);
        p->F    = F;
        p->name = F->getName().str();
    }
    return p.get();
}
enum { CALL_FN = 1000, CALL_H, CALL_IND, CALL_ASM, CALL_UNSUP };

static void decode(FuncInfo* fi)
{
    const Function* F = fi->F;
    fi->decoded       = true;
    unordered_map<const Value*, pair<u32, u32>> slot;
    u32 off = 0;
    auto alloc = [&](const Value* v) {
        u32 n   = flatN(v->getType());
        slot[v] = { off, n };
        off += n;
    };
    for (auto& a : F->args())
    {
        alloc(&a);
        fi->argOff.push_back(slot[&a].first);
        fi->argN.push_back(slot[&a].second);
    }
    unordered_map<const BasicBlock*, int> bbi;
    int k = 0;
    for (auto& B : *F)
    {
        bbi[&B] = k++;
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) alloc(&I);
    }
    fi->nregs = off;
    auto opn  = [&](const Value* v) -> Opn {
        if (auto* c = dyn_cast<Constant>(v)) return constOpn(c);
        if (isa<MetadataAsValue>(v)) return Opn{ true, 0, 0 };
        if (isa<InlineAsm>(v) || isa<BasicBlock>(v)) return Opn{ true, 0, 0 };
        auto it = slot.find(v);
        return Opn{ false, it->second.first, it->second.second };
    };
    fi->bbs.resize(k);
    for (auto& B : *F)
    {
        BBInfo& bi = fi->bbs[bbi[&B]];
        bi.start   = fi->code.size();
        for (auto& I : B)
        {
            if (auto* P = dyn_cast<PHINode>(&I))
            {
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                {
                    auto& vec = bi.phis[bbi[P->getIncomingBlock(i)]];
                    // duplicate edges (switch): only add once per phi
                    bool dup = false;
                    for (auto& c : vec) if (c.dst == slot[P].first) dup = true;
                    if (!dup) vec.push_back({ slot[P].first, slot[P].second, opn(P->getIncomingValue(i)) });
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            fi->code.emplace_back();
            DI& d = fi->code.back();
            d.opc = I.getOpcode();
            d.I   = &I;
            if (!I.getType()->isVoidTy())
            {
                d.dst = slot[&I].first;
                d.n   = slot[&I].second;
                flat(I.getType(), d.ws);
            }
            if (auto* C = dyn_cast<CallBase>(&I))
            {
                for (auto& a : C->args()) d.ops.push_back(opn(a.get()));
                const Value* cv = C->getCalledOperand()->stripPointerCasts();
                if (auto* A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
                d.aux = CALL_UNSUP;
                if (isa<InlineAsm>(cv)) { d.aux = CALL_ASM; d.name = cast<InlineAsm>(cv)->getAsmString(); }
                else if (auto* CF = dyn_cast<Function>(cv))
                {
                    d.name = CF->getName().str();
                    if (CF->isIntrinsic())
                    {
                        auto it = intrH.find(CF->getIntrinsicID());
                        auto jt = extH.find(d.name);
                        if (jt != extH.end()) { d.h = jt->second; d.aux = CALL_H; }
                        else if (it != intrH.end()) { d.h = it->second; d.aux = CALL_H; }
                    }
                    else
                    {
                        auto jt = extH.find(d.name);
                        if (jt != extH.end() && (CF->isDeclaration() || d.name.compare(0, 6, "__sym_") == 0 || d.name == "__clang_call_terminate")) { d.h = jt->second; d.aux = CALL_H; }
                        else if (!CF->isDeclaration()) { d.callee = getFunc(CF); d.aux = CALL_FN; }
                    }
                }
                else
                {
                    d.aux = CALL_IND;
                    d.ops.push_back(opn(C->getCalledOperand()));
                }
                if (auto* IV = dyn_cast<InvokeInst>(&I))
                {
                    d.succ[0] = bbi[IV->getNormalDest()];
                    d.succ[1] = bbi[IV->getUnwindDest()];
                }
                continue;
            }
            switch (I.getOpcode())
            {
            case Instruction::Br:
            {
                auto* Br = cast<BranchInst>(&I);
                if (Br->isConditional()) d.ops.push_back(opn(Br->getCondition()));
                for (unsigned i = 0; i < Br->getNumSuccessors(); i++) d.succ[i] = bbi[Br->getSuccessor(i)];
                break;
            }
            case Instruction::Switch:
            {
                auto* S = cast<SwitchInst>(&I);
                d.ops.push_back(opn(S->getCondition()));
                d.succs.push_back(bbi[S->getDefaultDest()]);
                for (auto& c : S->cases())
                {
                    d.ops.push_back(constOpn(c.getCaseValue()));
                    d.succs.push_back(bbi[c.getCaseSuccessor()]);
                }
                break;
            }
            case Instruction::GetElementPtr:
            {
                auto* G = cast<GetElementPtrInst>(&I);
                d.ops.push_back(opn(G->getPointerOperand()));
                i64 konst = 0;
                for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
                {
                    const Value* idx = it.getOperand();
                    if (StructType* ST = it.getStructTypeOrNull())
                    {
                        const Constant* cc = cast<Constant>(idx);
                        if (cc->getType()->isVectorTy()) cc = cc->getSplatValue();
                        konst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(cc)->getZExtValue());
                    }
                    else
                    {
                        u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) konst += ci->getSExtValue() * (i64)sz;
                        else
                        {
                            d.scaled.push_back({ (u32)d.ops.size(), sz });
                            d.ops.push_back(opn(idx));
                        }
                    }
                }
                d.imm = konst;
                break;
            }
            case Instruction::Load:
            {
                auto* L = cast<LoadInst>(&I);
                d.ops.push_back(opn(L->getPointerOperand()));
                d.imm = L->getAlign().value();
                Type* T = L->getType();
                if (auto* VT = dyn_cast<FixedVectorType>(T); VT && VT->getElementType()->isIntegerTy(1)) d.aux = 1;
                else
                {
                    vector<Leaf> lf;
                    layout(T, 0, lf);
                    for (auto& l : lf) d.scaled.push_back({ l.w, l.off });
                }
                break;
            }
            case Instruction::Store:
            {
                auto* L = cast<StoreInst>(&I);
                d.ops.push_back(opn(L->getPointerOperand()));
                d.ops.push_back(opn(L->getValueOperand()));
                d.imm = L->getAlign().value();
                Type* T = L->getValueOperand()->getType();
                if (auto* VT = dyn_cast<FixedVectorType>(T); VT && VT->getElementType()->isIntegerTy(1)) d.aux = 1;
                else
                {
                    vector<Leaf> lf;
                    layout(T, 0, lf);
                    for (auto& l : lf) d.scaled.push_back({ l.w, l.off });
                }
                break;
            }
            case Instruction::Alloca:
            {
                auto* A = cast<AllocaInst>(&I);
                d.ops.push_back(opn(A->getArraySize()));
                d.imm  = DL->getTypeAllocSize(A->getAllocatedType());
                d.aux  = A->getAlign().value();
                break;
            }
            case Instruction::ICmp: case Instruction::FCmp:
                d.ops.push_back(opn(I.getOperand(0)));
                d.ops.push_back(opn(I.getOperand(1)));
                d.aux = cast<CmpInst>(&I)->getPredicate();
                break;
            case Instruction::ExtractValue:
            {
                auto* E = cast<ExtractValueInst>(&I);
                d.ops.push_back(opn(E->getAggregateOperand()));
                Type* T = E->getAggregateOperand()->getType();
                u32 o   = 0;
                for (unsigned ix : E->indices())
                {
                    if (auto* S = dyn_cast<StructType>(T)) { for (unsigned q = 0; q < ix; q++) o += flatN(S->getElementType(q)); T = S->getElementType(ix); }
                    else { auto* A = cast<ArrayType>(T); o += ix * flatN(A->getElementType()); T = A->getElementType(); }
                }
                d.aux = o;
                break;
            }
            case Instruction::InsertValue:
            {
                auto* E = cast<InsertValueInst>(&I);
                d.ops.push_back(opn(E->getAggregateOperand()));
                d.ops.push_back(opn(E->getInsertedValueOperand()));
                Type* T = E->getAggregateOperand()->getType();
                u32 o   = 0;
                for (unsigned ix : E->indices())
                {
                    if (auto* S = dyn_cast<StructType>(T)) { for (unsigned q = 0; q < ix; q++) o += flatN(S->getElementType(q)); T = S->getElementType(ix); }
                    else { auto* A = cast<ArrayType>(T); o += ix * flatN(A->getElementType()); T = A->getElementType(); }
                }
                d.aux = o;
                break;
            }
            case Instruction::ShuffleVector:
            {
                auto* S = cast<ShuffleVectorInst>(&I);
                d.ops.push_back(opn(S->getOperand(0)));
                d.ops.push_back(opn(S->getOperand(1)));
                for (int m : S->getShuffleMask()) d.shuf.push_back(m < 0 ? ~0u : (u32)m);
                break;
            }
            case Instruction::AtomicRMW:
            {
                auto* A = cast<AtomicRMWInst>(&I);
                d.ops.push_back(opn(A->getPointerOperand()));
                d.ops.push_back(opn(A->getValOperand()));
                d.aux = A->getOperation();
                break;
            }
            default:
                for (auto& o : I.operands()) d.ops.push_back(opn(o.get()));
            }
        }
    }
}
static bool gotoBB(State& s, int bb)
{
    Frame& f   = s.st.back();
    BBInfo& bi = f.f->bbs[bb];
    if (!bi.phis.empty())
    {
        auto it = bi.phis.find(f.bb);
        if (it != bi.phis.end())
        {
            auto& v = it->second;
            if (v.size() == 1 && v[0].n == 1) f.regs[v[0].dst] = *opv(s, v[0].src);
            else
            {
                static vector<Val> tmp;
                tmp.clear();
                for (auto& c : v)
                {
                    const Val* x = opv(s, c.src);
                    tmp.insert(tmp.end(), x, x + c.n);
                }
                u32 p = 0;
                for (auto& c : v)
                    for (u32 i = 0; i < c.n; i++) f.regs[c.dst + i] = tmp[p++];
            }
        }
    }
    f.bb = bb;
    f.pc = bi.start;
    return true;
}
static void pushCall(State& s, FuncInfo* fi, const vector<Val>& args, const DI* call)
{
    if (!fi->decoded) decode(fi);
    reached.insert(fi->F);
    if (s.st.size() > 2000) { addViolation(s, "stack", "call depth above 2000 frames", s.model->m); throw PathDone{}; }
    s.st.emplace_back();
    Frame& f = s.st.back();
    f.f      = fi;
    f.regs.resize(fi->nregs);
    f.call = call;
    u32 p  = 0;
    for (size_t i = 0; i < fi->argOff.size(); i++)
        for (u32 k = 0; k < fi->argN[i]; k++) f.regs[fi->argOff[i] + k] = args[p++];
    f.bb = 0;
    f.pc = fi->bbs[0].start;
}
static Val toBits(const Val* v, u32 n)
{
    Val r = v[0];
    for (u32 i = 1; i < n; i++) r = vConcat(v[i], r);
    return r;
}
static const Op binOp(unsigned opc)
{
    switch (opc)
    {
    case Instruction::Add: return OAdd;
    case Instruction::Sub: return OSub;
    case Instruction::Mul: return OMul;
    case Instruction::UDiv: return OUDiv;
    case Instruction::SDiv: return OSDiv;
    case Instruction::URem: return OURem;
    case Instruction::SRem: return OSRem;
    case Instruction::And: return OAnd;
    case Instruction::Or: return OOr;
    case Instruction::Xor: return OXor;
    case Instruction::Shl: return OShl;
    case Instruction::LShr: return OLShr;
    case Instruction::AShr: return OAShr;
    case Instruction::FAdd: return OFAdd;
    case Instruction::FSub: return OFSub;
    case Instruction::FMul: return OFMul;
    case Instruction::FDiv: return OFDiv;
    case Instruction::FRem: return OFRem;
    }
    return OConst;
}
static Val icmp(unsigned p, const Val& a, const Val& b)
{
    switch (p)
    {
    case CmpInst::ICMP_EQ: return vEq(a, b);
    case CmpInst::ICMP_NE: return vNot(vEq(a, b));
    case CmpInst::ICMP_UGT: return vBin(OUlt, b, a);
    case CmpInst::ICMP_UGE: return vBin(OUle, b, a);
    case CmpInst::ICMP_ULT: return vBin(OUlt, a, b);
    case CmpInst::ICMP_ULE: return vBin(OUle, a, b);
    case CmpInst::ICMP_SGT: return vBin(OSlt, b, a);
    case CmpInst::ICMP_SGE: return vBin(OSle, b, a);
    case CmpInst::ICMP_SLT: return vBin(OSlt, a, b);
    default: return vBin(OSle, a, b);
    }
}
static Val fcmp(unsigned p, const Val& a, const Val& b)
{
    switch (p)
    {
    case CmpInst::FCMP_FALSE: return mkc(1, 0);
    case CmpInst::FCMP_OEQ: return vFCmp(0, a, b);
    case CmpInst::FCMP_OGT: return vFCmp(1, b, a);
    case CmpInst::FCMP_OGE: return vFCmp(2, b, a);
    case CmpInst::FCMP_OLT: return vFCmp(1, a, b);
    case CmpInst::FCMP_OLE: return vFCmp(2, a, b);
    case CmpInst::FCMP_ONE: return vOr1(vFCmp(1, a, b), vFCmp(1, b, a));
    case CmpInst::FCMP_ORD: return vNot(vFCmp(3, a, b));
    case CmpInst::FCMP_UNO: return vFCmp(3, a, b);
    case CmpInst::FCMP_UEQ: return vNot(vOr1(vFCmp(1, a, b), vFCmp(1, b, a)));
    case CmpInst::FCMP_UGT: return vNot(vFCmp(2, a, b));
    case CmpInst::FCMP_UGE: return vNot(vFCmp(1, a, b));
    case CmpInst::FCMP_ULT: return vNot(vFCmp(2, b, a));
    case CmpInst::FCMP_ULE: return vNot(vFCmp(1, b, a));
    case CmpInst::FCMP_UNE: return vNot(vFCmp(0, a, b));
    default: return mkc(1, 1);
    }
}
static void branchTo(State& s, const DI& di, const vector<pair<Val, int>>& alts)
{
    // alts: mutually exclusive, exhaustive conditions -> successor
    int taken = -1;
    for (size_t i = 0; i < alts.size(); i++)
    {
        const Val& c = alts[i].first;
        bool t       = c.isC() ? c.c : s.model->ev->truth(c.e);
        if (t) { taken = i; break; }
    }
    if (taken < 0) throw Unsupported{ "branch evaluation" };
    for (size_t i = 0; i < alts.size(); i++)
    {
        if ((int)i == taken) continue;
        shared_ptr<EvalCtx> m;
        Res r = feasible(s, alts[i].first, m);
        if (r == RUnknown) noteUnknown(s, "branch");
        if (r != RSat) continue;
        auto n   = make_unique<State>(s);
        n->model = m;
        addPC(*n, alts[i].first);
        gotoBB(*n, alts[i].second);
        work.push_back(move(n));
        nForks++;
    }
    addPC(s, alts[taken].first);
    gotoBB(s, alts[taken].second);
}
static void callAsm(State& s, const DI& di, Val* dst)
{
    const string& a = di.name;
    if (a.empty() || a.find_first_not_of(" \t\n") == string::npos)
    {
        // compiler barrier / value passthrough
        for (u32 i = 0; i < di.n; i++) dst[i] = i < di.ops.size() ? OPV(i)[0] : mkUndef(di.ws[i]);
        return;
    }
    if (a.find("cpuid") != string::npos)
    {
        // inputs: leaf, subleaf (last two integer operands of width 32)
        u64 leaf = conc(s, OP1(0)), sub = di.ops.size() > 1 ? conc(s, OP1(1)) : 0;
        static const char* rn[4] = { "eax", "ebx", "ecx", "edx" };
        for (u32 i = 0; i < di.n; i++)
        {
            // same leaf -> same answer
            string nm = "cpuid_" + hex(leaf) + "_" + to_string(sub) + "_" + rn[i & 3];
            s.symCount[nm] = 0;
            bool seen = false;
            for (u32 x : s.symOrder) if (syms[x].name == nm) seen = true;
            if (!optCpuid) { dst[i] = mkc(32, 0); continue; }
            Val v = newSym(s, nm, 32, false);
            if (seen) s.symOrder.pop_back();
            dst[i] = v;
        }
        return;
    }
    if (a.find("xgetbv") != string::npos || a.find("0x0f, 0x01, 0xd0") != string::npos)
    {
        for (u32 i = 0; i < di.n; i++)
        {
            string nm = i == 0 ? "xcr0_eax" : "xcr0_edx";
            s.symCount[nm] = 0;
            bool seen = false;
            for (u32 x : s.symOrder) if (syms[x].name == nm) seen = true;
            if (!optCpuid) { dst[i] = mkc(32, 0); continue; }
            Val v = newSym(s, nm, 32, false);
            if (seen) s.symOrder.pop_back();
            dst[i] = v;
        }
        return;
    }
    throw Unsupported{ "inline asm: " + a };
}
static void step(State& s)
{
    Frame* f     = &s.st.back();
    const DI& di = f->f->code[f->pc];
    Val* dst     = f->regs.data() + di.dst;
    s.steps++;
    switch (di.opc)
    {
    case Instruction::Ret:
    {
        vector<Val> rv;
        if (!di.ops.empty()) { const Val* v = OPV(0); rv.assign(v, v + di.ops[0].n); }
        for (u64 a : f->allocas) s.mem.objs.erase(a);
        const DI* call = f->call;
        s.st.pop_back();
        if (s.st.empty()) return;
        Frame& c = s.st.back();
        for (u32 i = 0; i < rv.size() && i < call->n; i++) c.regs[call->dst + i] = rv[i];
        if (call->opc == Instruction::Invoke) gotoBB(s, call->succ[0]);
        else c.pc++;
        return;
    }
    case Instruction::Br:
    {
        if (di.ops.empty()) { gotoBB(s, di.succ[0]); return; }
        Val c = OP1(0);
        if (LIKELY(c.isC())) { gotoBB(s, di.succ[c.c ? 0 : 1]); return; }
        if (depUndef(c.e)) { addViolation(s, "uninit", "branch depends on uninitialised memory", s.model->m); throw PathDone{}; }
        branchTo(s, di, { { c, di.succ[0] }, { vNot(c), di.succ[1] } });
        return;
    }
    case Instruction::Switch:
    {
        Val v = OP1(0);
        if (LIKELY(v.isC()))
        {
            for (size_t i = 1; i < di.ops.size(); i++)
                if (constPool[di.ops[i].off].c == v.c) { gotoBB(s, di.succs[i]); return; }
            gotoBB(s, di.succs[0]);
            return;
        }
        if (depUndef(v.e)) { addViolation(s, "uninit", "branch depends on uninitialised memory", s.model->m); throw PathDone{}; }
        map<int, Val> g;
        Val none = mkc(1, 1);
        for (size_t i = 1; i < di.ops.size(); i++)
        {
            Val e = vEq(v, constPool[di.ops[i].off]);
            none  = vAnd1(none, vNot(e));
            auto it = g.find(di.succs[i]);
            if (it == g.end()) g[di.succs[i]] = e;
            else it->second = vOr1(it->second, e);
        }
        auto it = g.find(di.succs[0]);
        if (it == g.end()) g[di.succs[0]] = none;
        else it->second = vOr1(it->second, none);
        vector<pair<Val, int>> alts;
        for (auto& x : g) alts.push_back({ x.second, x.first });
        branchTo(s, di, alts);
        return;
    }
    case Instruction::Unreachable: addViolation(s, "unreachable", "unreachable code executed", s.model->m); throw PathDone{};
    case Instruction::Resume:
    {
        s.exn = OPV(0)[0].c;
        for (u64 a : f->allocas) s.mem.objs.erase(a);
        s.st.pop_back();
        if (s.st.empty()) throw PathDone{};
        unwind(s);
        return;
    }
    case Instruction::Call: case Instruction::Invoke:
    {
        FuncInfo* callee = nullptr;
        size_t na        = di.ops.size();
        switch (di.aux)
        {
        case CALL_FN: callee = di.callee; break;
        case CALL_H:
            try { di.h(s, di, dst); }
            catch (int) { return; } // control transferred
            break;
        case CALL_ASM: callAsm(s, di, dst); break;
        case CALL_IND:
        {
            u64 a   = conc(s, OP1(di.ops.size() - 1));
            auto it = addrF.find(a);
            if (it == addrF.end()) memErr(s, a ? "call through invalid function pointer" : "call through null function pointer");
            na--;
            if (it->second->isDeclaration())
            {
                auto jt = extH.find(it->second->getName().str());
                if (jt == extH.end()) throw Unsupported{ "indirect external call " + it->second->getName().str() };
                try { jt->second(s, di, dst); }
                catch (int) { return; }
                break;
            }
            callee = getFunc(it->second);
            break;
        }
        default: throw Unsupported{ "external function " + di.name };
        }
        if (callee)
        {
            vector<Val> args;
            for (size_t i = 0; i < na; i++) { const Val* v = OPV(i); args.insert(args.end(), v, v + di.ops[i].n); }
            pushCall(s, callee, args, &di);
            return;
        }
        if (di.opc == Instruction::Invoke) gotoBB(s, di.succ[0]);
        else s.st.back().pc++;
        return;
    }
    case Instruction::Load:
    {
        if (di.aux == 1)
        {
            Val b;
            vector<Leaf> lf{ { 0, (uint16_t)di.n } };
            loadT(s, OP1(0), lf, &b, 1);
            for (u32 i = 0; i < di.n; i++) dst[i] = vExtract(b, i, 1);
            break;
        }
        const Val& p = OP1(0);
        if (LIKELY(p.isC() && di.n == 1))
        {
            checkAlign(s, p.c, di.imm);
            dst[0] = loadAt(s, p.c, di.ws[0]);
            break;
        }
        vector<Leaf> lf;
        for (auto& x : di.scaled) lf.push_back({ x.second, (uint16_t)x.first });
        loadT(s, p, lf, dst, di.imm);
        break;
    }
    case Instruction::Store:
    {
        if (di.aux == 1)
        {
            Val b = toBits(OPV(1), di.ops[1].n);
            vector<Leaf> lf{ { 0, (uint16_t)di.ops[1].n } };
            storeT(s, OP1(0), lf, &b, 1);
            break;
        }
        const Val& p = OP1(0);
        if (LIKELY(p.isC() && di.ops[1].n == 1))
        {
            checkAlign(s, p.c, di.imm);
            storeAt(s, p.c, OP1(1));
            break;
        }
        vector<Leaf> lf;
        for (auto& x : di.scaled) lf.push_back({ x.second, (uint16_t)x.first });
        storeT(s, p, lf, OPV(1), di.imm);
        break;
    }
    case Instruction::Alloca:
    {
        u64 n = conc(s, OP1(0));
        u64 a = allocObj(s, n * di.imm, di.aux, OStack, true);
        s.st.back().allocas.push_back(a);
        dst[0] = mkc(64, a);
        break;
    }
    case Instruction::GetElementPtr:
    {
        if (LIKELY(di.n == 1))
        {
            Val p = OP1(0);
            if (di.imm) p = vBin(OAdd, p, mkc(64, di.imm));
            for (auto& x : di.scaled)
            {
                Val i = OP1(x.first);
                i     = i.w < 64 ? vSExt(i, 64) : i;
                p     = vBin(OAdd, p, vBin(OMul, i, mkc(64, x.second)));
            }
            dst[0] = p;
        }
        else
        {
            vector<Val> t;
            for (u32 k = 0; k < di.n; k++)
            {
                Val p = OPV(0)[di.ops[0].n == 1 ? 0 : k];
                if (di.imm) p = vBin(OAdd, p, mkc(64, di.imm));
                for (auto& x : di.scaled)
                {
                    Val i = OPV(x.first)[di.ops[x.first].n == 1 ? 0 : k];
                    i     = i.w < 64 ? vSExt(i, 64) : i;
                    p     = vBin(OAdd, p, vBin(OMul, i, mkc(64, x.second)));
                }
                t.push_back(p);
            }
            for (u32 k = 0; k < di.n; k++) dst[k] = t[k];
        }
        break;
    }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
    case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    {
        Op op        = binOp(di.opc);
        const Val *a = OPV(0), *b = OPV(1);
        for (u32 i = 0; i < di.n; i++) dst[i] = vBin(op, a[i], b[i]);
        break;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    {
        Op op        = binOp(di.opc);
        const Val *a = OPV(0), *b = OPV(1);
        for (u32 i = 0; i < di.n; i++)
        {
            Val z = vEq(b[i], fromAP(APInt(b[i].w, 0)));
            if (z.isC() ? z.c : true)
            {
                shared_ptr<EvalCtx> m;
                if (feasible(s, z, m) == RSat) { addViolation(s, "div", "integer division by zero", m->m); if (z.isC()) throw PathDone{}; s.model->m = s.model->m; addPC(s, vNot(z)); shared_ptr<EvalCtx> m3; if (feasible(s, vNot(z), m3) != RSat) throw PathDone{}; s.model = m3; }
            }
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = vBin(op, OPV(0)[i], OPV(1)[i]);
        break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    {
        Op op        = binOp(di.opc);
        const Val *a = OPV(0), *b = OPV(1);
        for (u32 i = 0; i < di.n; i++) dst[i] = vFBin(op, a[i], b[i]);
        break;
    }
    case Instruction::FNeg: lanes1(s, di, dst, [](const Val& a) { return vFUn(OFNeg, a); }); break;
    case Instruction::ICmp:
    {
        const Val *a = OPV(0), *b = OPV(1);
        for (u32 i = 0; i < di.n; i++) dst[i] = icmp(di.aux, a[i], b[i]);
        break;
    }
    case Instruction::FCmp:
    {
        const Val *a = OPV(0), *b = OPV(1);
        for (u32 i = 0; i < di.n; i++) dst[i] = fcmp(di.aux, a[i], b[i]);
        break;
    }
    case Instruction::Select:
    {
        const Val *c = OPV(0), *a = OPV(1), *b = OPV(2);
        if (di.ops[0].n == 1)
        {
            Val cc = c[0];
            for (u32 i = 0; i < di.n; i++) dst[i] = vIte(cc, a[i], b[i]);
        }
        else
            for (u32 i = 0; i < di.n; i++) dst[i] = vIte(c[i], a[i], b[i]);
        break;
    }
    case Instruction::Trunc: for (u32 i = 0; i < di.n; i++) dst[i] = vTrunc(OPV(0)[i], di.ws[i]); break;
    case Instruction::ZExt: for (u32 i = 0; i < di.n; i++) dst[i] = vZExt(OPV(0)[i], di.ws[i]); break;
    case Instruction::SExt: for (u32 i = 0; i < di.n; i++) dst[i] = vSExt(OPV(0)[i], di.ws[i]); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        for (u32 i = 0; i < di.n; i++)
        {
            const Val& v = OPV(0)[i];
            dst[i]       = di.ws[i] <= v.w ? vTrunc(v, di.ws[i]) : vZExt(v, di.ws[i]);
        }
        break;
    case Instruction::FPToSI: for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OFPToSI, OPV(0)[i], di.ws[i]); break;
    case Instruction::FPToUI: for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OFPToUI, OPV(0)[i], di.ws[i]); break;
    case Instruction::SIToFP: for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OSIToFP, OPV(0)[i], di.ws[i]); break;
    case Instruction::UIToFP: for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OUIToFP, OPV(0)[i], di.ws[i]); break;
    case Instruction::FPExt: if (di.ws[0] == 80) throw Unsupported{ "x87" }; for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OFPExt, OPV(0)[i], di.ws[i]); break;
    case Instruction::FPTrunc: for (u32 i = 0; i < di.n; i++) dst[i] = vFCvt(OFPTrunc, OPV(0)[i], di.ws[i]); break;
    case Instruction::BitCast:
    {
        const Val* a = OPV(0);
        u32 na       = di.ops[0].n;
        if (na == di.n) { for (u32 i = 0; i < na; i++) dst[i] = a[i]; break; }
        if (na > di.n && na % di.n == 0)
        {
            u32 k = na / di.n;
            vector<Val> t;
            for (u32 i = 0; i < di.n; i++) t.push_back(toBits(a + i * k, k));
            for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
        }
        else if (di.n % na == 0)
        {
            u32 k = di.n / na;
            vector<Val> t;
            for (u32 i = 0; i < na; i++)
                for (u32 j = 0; j < k; j++) t.push_back(vExtract(a[i], j * di.ws[0], di.ws[0]));
            for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
        }
        else
        {
            Val b = toBits(a, na);
            for (u32 i = 0; i < di.n; i++) dst[i] = vExtract(b, i * di.ws[0], di.ws[0]);
        }
        break;
    }
    case Instruction::Freeze:
        for (u32 i = 0; i < di.n; i++) { const Val& v = OPV(0)[i]; dst[i] = v; }
        break;
    case Instruction::ExtractElement:
    {
        const Val* a = OPV(0);
        u32 n        = di.ops[0].n;
        Val ix       = OP1(1);
        if (ix.isC()) { dst[0] = ix.c < n ? a[ix.c] : mkUndef(di.ws[0]); break; }
        Val r = a[0];
        for (u32 i = 1; i < n; i++) r = vIte(vEq(ix, mkc(ix.w, i)), a[i], r);
        dst[0] = r;
        break;
    }
    case Instruction::InsertElement:
    {
        const Val* a = OPV(0);
        Val v = OP1(1), ix = OP1(2);
        for (u32 i = 0; i < di.n; i++) dst[i] = ix.isC() ? (ix.c == i ? v : a[i]) : vIte(vEq(ix, mkc(ix.w, i)), v, a[i]);
        break;
    }
    case Instruction::ShuffleVector:
    {
        const Val *a = OPV(0), *b = OPV(1);
        u32 n        = di.ops[0].n;
        static vector<Val> t;
        t.clear();
        for (u32 i = 0; i < di.n; i++)
        {
            u32 m = di.shuf[i];
            t.push_back(m == ~0u ? mkUndef(di.ws[i]) : m < n ? a[m] : b[m - n]);
        }
        for (u32 i = 0; i < di.n; i++) dst[i] = t[i];
        break;
    }
    case Instruction::ExtractValue:
    {
        const Val* a = OPV(0) + di.aux;
        for (u32 i = 0; i < di.n; i++) dst[i] = a[i];
        break;
    }
    case Instruction::InsertValue:
    {
        const Val *a = OPV(0), *b = OPV(1);
        u32 nb       = di.ops[1].n;
        for (u32 i = 0; i < di.n; i++) dst[i] = (i >= di.aux && i < di.aux + nb) ? b[i - di.aux] : a[i];
        break;
    }
    case Instruction::AtomicRMW:
    {
        u64 p   = conc(s, OP1(0));
        Val v   = OP1(1);
        Val old = loadAt(s, p, v.w);
        Val nw;
        switch (di.aux)
        {
        case AtomicRMWInst::Xchg: nw = v; break;
        case AtomicRMWInst::Add: nw = vBin(OAdd, old, v); break;
        case AtomicRMWInst::Sub: nw = vBin(OSub, old, v); break;
        case AtomicRMWInst::And: nw = vBin(OAnd, old, v); break;
        case AtomicRMWInst::Or: nw = vBin(OOr, old, v); break;
        case AtomicRMWInst::Xor: nw = vBin(OXor, old, v); break;
        default: throw Unsupported{ "atomicrmw" };
        }
        storeAt(s, p, nw);
        dst[0] = old;
        break;
    }
    case Instruction::AtomicCmpXchg:
    {
        u64 p   = conc(s, OP1(0));
        Val c = OP1(1), v = OP1(2);
        Val old = loadAt(s, p, c.w);
        Val eq  = vEq(old, c);
        storeAt(s, p, vIte(eq, v, old));
        dst[0] = old;
        dst[1] = eq;
        break;
    }
    case Instruction::Fence: break;
    case Instruction::LandingPad: break; // handled in unwind
    default: throw Unsupported{ string("instruction ") + di.I->getOpcodeName() };
    }
    s.st.back().pc++;
}
static string jesc(const string& s)
{
    string r;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static string hexAP(const APInt& a)
{
    llvm::SmallString<40> t;
    a.toString(t, 16, false);
    return string(t.str());
}
static string status = "pass", errMsg;
static string outPath;
static void report(const string& entry)
{
    string j = "{\"entry\":\"" + jesc(entry) + "\",\"status\":\"" + status + "\",\"error\":\"" + jesc(errMsg) + "\"";
    auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, ",\"%s\":%.10g", k, v); j += b; };
    num("paths", nPaths); num("killed", nKilled); num("forks", nForks); num("instr", nInstr);
    num("asserts", nAsserts); num("asserts_symbolic", nAssertSym);
    num("queries", SS.queries); num("sat", SS.sat); num("unsat", SS.unsat); num("unknown", SS.unknown); num("cache_hits", SS.cacheHits);
    num("uf_unsat", SS.ufUnsat); num("lra", SS.lra); num("solver_s", SS.time); num("wall_s", elapsed()); num("exprs", exprCount());
    num("pending", work.size());
    j += ",\"functions\":[";
    int n = 0;
    for (auto* F : reached)
    {
        string d = llvm::demangle(F->getName().str());
        if (d.find("kfr") == string::npos && d.find("cometa") == string::npos) continue;
        if (n++) j += ",";
        j += "\"" + jesc(d.substr(0, 160)) + "\"";
    }
    j += "],\"n_functions\":" + to_string(reached.size()) + ",\"assert_msgs\":{";
    n = 0;
    for (auto& p : assertMsgs) j += (n++ ? "," : "") + ("\"" + jesc(p.first) + "\":" + to_string(p.second));
    j += "},\"close_margin\":{";
    n = 0;
    for (auto& p : closeWorst) { char b[40]; snprintf(b, 40, "%.4g", p.second < 1e30 ? p.second : 1e30); j += (n++ ? "," : "") + ("\"" + jesc(p.first) + "\":" + b); }
    j += "},\"taylor_parts\":" + to_string(fnLeaves) + ",\"taylor_points\":" + to_string(fnPoints) + ",\"inconclusive\":[";
    n = 0;
    for (auto& x : inconclusive) j += (n++ ? ",\"" : "\"") + jesc(x) + "\"";
    auto viol = [&](const vector<Violation>& vv) {
        int n = 0;
        for (auto& v : vv)
        {
            j += (n++ ? ",{" : "{") + ("\"kind\":\"" + v.kind + "\",\"msg\":\"" + jesc(v.msg) + "\",\"where\":\"" + jesc(v.where) + "\",\"vals\":[");
            int q = 0;
            for (auto& p : v.vals) j += (q++ ? "," : "") + ("[\"" + jesc(p.first) + "\"," + to_string(p.second.getBitWidth()) + ",\"" + hexAP(p.second) + "\"]");
            j += "]}";
        }
    };
    j += "],\"violations\":[";
    viol(violations);
    j += "],\"known\":[";
    viol(knownWit);
    j += "]}\n";
    if (outPath.empty()) fputs(j.c_str(), stdout);
    else { ofstream o(outPath); o << j; }
}
static void onTerm(int) { _exit(3); }

int main(int argc, char** argv)
{
    T0 = chrono::steady_clock::now();
    signal(SIGTERM, onTerm);
    vector<string> bcs;
    string entry;
    bool list = false;
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        auto nx  = [&]() { return string(argv[++i]); };
        if (a == "-e") entry = nx();
        else if (a == "-o") outPath = nx();
        else if (a == "-v") optVerbose = true;
        else if (a == "--sym-cpuid") optCpuid = true;
        else if (a == "--list") list = true;
        else if (a == "--fma") hasFMA = true;
        else if (a == "--max-instr") optMaxInstr = stoull(nx());
        else if (a == "--max-time") optMaxTime = stod(nx());
        else if (a == "--query-timeout") queryTimeoutMs = stoi(nx());
        else if (a == "--max-viol") optMaxViol = stoi(nx());
        else if (a == "--concrete") { optConcrete = true; optSeed = stoull(nx()); }
        else if (a == "--observe") optObserve = nx();
        else if (a == "--replay-out") optReplayOut = nx();
        else bcs.push_back(a);
    }
    LLVMContext ctx;
    ctx.setDiscardValueNames(true);
    SMDiagnostic err;
    unique_ptr<Module> mod;
    for (auto& b : bcs)
    {
        auto m = parseIRFile(b, err, ctx);
        if (!m) { fprintf(stderr, "cannot read %s: %s\n", b.c_str(), err.getMessage().str().c_str()); return 2; }
        if (list)
        {
            for (auto& F : *m) if (!F.isDeclaration() && F.getName().startswith("check_")) printf("%s\n", F.getName().str().c_str());
            continue;
        }
        if (!mod) mod = move(m);
        else if (Linker::linkModules(*mod, move(m))) { fprintf(stderr, "link error %s\n", b.c_str()); return 2; }
    }
    if (list) return 0;
    M  = mod.get();
    DL = &M->getDataLayout();
    // dummy function used when the stack is empty
    {
        Function* F = Function::Create(FunctionType::get(Type::getVoidTy(ctx), false), GlobalValue::InternalLinkage, "__ksym_dummy", M);
        auto* B     = BasicBlock::Create(ctx, "", F);
        ReturnInst::Create(ctx, B);
    }
    u64 fa = 0x10000000, ga = 0x400000000ull;
    for (auto& F : *M) { gaddr[&F] = fa; addrF[fa] = &F; fa += 16; }
    for (auto& G : M->globals())
    {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
        u64 al = max<u64>(16, DL->getPreferredAlign(&G).value());
        ga     = (ga + 2 * al - 1) / (2 * al) * (2 * al) + al;
        gaddr[&G] = ga;
        addrG[ga] = &G;
        ga += sz + 64;
    }
    for (auto& A : M->aliases()) { auto* o = A.getAliaseeObject(); if (o && gaddr.count(o)) gaddr[&A] = gaddr[o]; }
    initHandlers();
    Function* EF = M->getFunction(entry);
    if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }

    unique_ptr<State> lastState;
    auto s0   = make_unique<State>();
    s0->model = make_shared<EvalCtx>(Assign{});
    // run constructors then the entry
    vector<const Function*> ctors;
    if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
        if (G->hasInitializer())
            if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
            {
                vector<pair<u64, const Function*>> v;
                for (auto& o : A->operands())
                    if (auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts()))
                        v.push_back({ cast<ConstantInt>(cast<ConstantStruct>(o)->getOperand(0))->getZExtValue(), f });
                stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
                for (auto& p : v) ctors.push_back(p.second);
            }
    auto runState = [&](State& s) {
        cur = &s;
        u64 chk = 0;
        while (!s.st.empty())
        {
            step(s);
            if (LIKELY(++chk & 1023)) continue;
            nInstr += 1024;
            if (nInstr > optMaxInstr) { errMsg = "instruction budget at " + where(s); throw Timeout{}; }
            if (elapsed() > optMaxTime) { errMsg = "time budget at " + where(s); throw Timeout{}; }
            if (s.fuel && s.steps > s.fuel) { addViolation(s, "fuel", s.fuelMsg, s.model->m); throw PathDone{}; }
        }
    };
    try
    {
        for (auto* f : ctors)
        {
            pushCall(*s0, getFunc(f), {}, nullptr);
            try { runState(*s0); }
            catch (PathDone&) {}
        }
        reached.clear();
        u64 live0 = s0->mem.heapLive;
        (void)live0;
        s0->mem.heapLive = 0;
        pushCall(*s0, getFunc(EF), {}, nullptr);
        work.push_back(move(s0));
        while (!work.empty())
        {
            auto s = move(work.back());
            work.pop_back();
            try
            {
                runState(*s);
                nPaths++;
            }
            catch (PathKill&) { nKilled++; }
            catch (PathDone&) { nPaths++; }
            catch (Unsupported& u)
            {
                if (status == "pass") { status = "unsupported"; errMsg = u.msg + (!s->st.empty() ? " at " + where(*s) : ""); }
                nPaths++;
            }
            if (optConcrete) { lastState = move(s); break; }
        }
    }
    catch (Unsupported& u) { status = "unsupported"; errMsg = u.msg; }
    catch (Timeout&) { if (violations.empty()) status = "timeout"; }
    if (!violations.empty()) status = "violation";
    else if (status == "pass" && !inconclusive.empty()) status = "inconclusive";
    else if (status == "pass" && !nAsserts) { status = "vacuous"; errMsg = "no assertion reached"; }
    if (optConcrete)
    {
        ofstream o(optObserve);
        for (auto& x : observed) o << x << "\n";
        ofstream r(optReplayOut);
        if (lastState) for (auto& p : assignment(*lastState, lastState->model->m)) r << p.first << " " << p.second.getBitWidth() << " " << hexAP(p.second) << "\n";
    }
    report(entry);
    fflush(stdout);
    _exit(0);
}
