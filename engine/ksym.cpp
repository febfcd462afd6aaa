// ksym: symbolic executor for LLVM bitcode of the real library code.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <unistd.h>
using namespace std;
using namespace llvm;
#define LIKELY(x) __builtin_expect(!!(x), 1)

// ------------------------------------------------------------------ options / results
static bool optVerbose        = false;
static u64 optMaxInstr        = 400000000ull;
static double optMaxTime      = 600;
static bool optConcrete       = false;
static u64 optSeed            = 1;
static string optObserve, optReplayOut;
static bool hasFMA            = false;
static bool optCpuid          = false;
static size_t optMaxEnum      = 4096;
static int optMaxViol         = 1;

static chrono::steady_clock::time_point T0;
static double elapsed() { return chrono::duration<double>(chrono::steady_clock::now() - T0).count(); }

struct Unsupported { string msg; };
struct PathKill {};          // path infeasible/assumed away
struct PathDone {};          // path finished abnormally but recorded
struct Timeout {};

struct Violation
{
    string msg, where, kind;
    vector<pair<string, APInt>> vals;
};
static vector<Violation> violations;
static vector<string> knownHits;
static vector<Violation> knownWit;
static u64 nPaths = 0, nAsserts = 0, nAssertSym = 0, nInstr = 0, nForks = 0, nKilled = 0;
static map<string, u64> assertMsgs;
static vector<string> inconclusive;
static set<const Function*> reached;
static map<string, double> closeWorst;
static size_t fnBoxes, fnLeaves, fnPoints;
static vector<string> observed;

// ------------------------------------------------------------------ memory
struct Cell { const Expr* e; u32 idx; };
struct Data
{
    vector<uint8_t> raw;
    vector<Cell> cells; // empty: everything concrete
};
enum OK { OStack, OHeap, OGlobal, OFunc };
struct Obj
{
    u64 base, size;
    uint8_t kind;
    bool ro;
    shared_ptr<Data> d;
};
struct Mem
{
    map<u64, Obj> objs;
    u64 nextHeap = 0x200000000000ull, nextStack = 0x7f0000000000ull;
    u64 heapLive = 0, heapAllocs = 0;
};
static const Expr* undef8()
{
    static const Expr* u = toExpr(mkUndef(8));
    return u;
}
static void wr(Obj& o)
{
    if (o.d.use_count() > 1)
        o.d = make_shared<Data>(*o.d);
}
static Val loadBytes(const Obj& o, u64 off, unsigned w)
{
    unsigned n    = (w + 7) / 8;
    const Data& d = *o.d;
    if (d.cells.empty())
    {
        if (n <= 8)
        {
            u64 v = 0;
            memcpy(&v, d.raw.data() + off, n);
            return mkc(w, v);
        }
        APInt a(n * 8, 0);
        for (unsigned i = 0; i < n; i++)
            a.insertBits(APInt(8, d.raw[off + i]), i * 8);
        return fromAP(a.trunc(w));
    }
    const Cell* c = &d.cells[off];
    if (c[0].e && c[0].idx == 0 && c[0].e->w == n * 8)
    {
        bool full = true;
        for (unsigned i = 1; i < n; i++)
            if (c[i].e != c[0].e || c[i].idx != i)
            {
                full = false;
                break;
            }
        if (full)
            return vTrunc(fromExpr(c[0].e), w);
    }
    // general: build by runs from the low end
    Val r;
    bool have = false;
    for (unsigned i = 0; i < n;)
    {
        Val part;
        unsigned j = i + 1;
        if (!c[i].e)
        {
            while (j < n && !c[j].e && j - i < 8)
                j++;
            u64 v = 0;
            memcpy(&v, d.raw.data() + off + i, j - i);
            part = mkc((j - i) * 8, v);
        }
        else if (c[i].e == undef8())
        {
            while (j < n && c[j].e == undef8())
                j++;
            part = mkUndef((j - i) * 8);
        }
        else
        {
            while (j < n && c[j].e == c[i].e && c[j].idx == c[i].idx + (j - i))
                j++;
            part = vExtract(fromExpr(c[i].e), c[i].idx * 8, (j - i) * 8);
        }
        r    = have ? vConcat(part, r) : part;
        have = true;
        i    = j;
    }
    return vTrunc(r, w);
}
static void storeBytes(Obj& o, u64 off, const Val& v)
{
    wr(o);
    unsigned n = (v.w + 7) / 8;
    Data& d    = *o.d;
    if (v.isC())
    {
        if (n <= 8)
            memcpy(d.raw.data() + off, &v.c, n);
        else
        {
            APInt a = toAP(v).zext(n * 8);
            for (unsigned i = 0; i < n; i++)
                d.raw[off + i] = a.extractBitsAsZExtValue(8, i * 8);
        }
        if (!d.cells.empty())
            for (unsigned i = 0; i < n; i++)
                d.cells[off + i].e = nullptr;
        return;
    }
    if (d.cells.empty())
        d.cells.assign(d.raw.size(), Cell{ nullptr, 0 });
    Val z = vZExt(v, n * 8);
    if (z.e->op == OUndef)
    {
        for (unsigned i = 0; i < n; i++)
            d.cells[off + i] = Cell{ undef8(), 0 };
        return;
    }
    for (unsigned i = 0; i < n; i++)
        d.cells[off + i] = Cell{ z.e, i };
}

// ------------------------------------------------------------------ predecoded program
struct Opn { bool isConst; u32 off, n; };
struct DI;
struct State;
typedef void (*Handler)(State&, const DI&, Val* dst);
struct FuncInfo;
struct DI
{
    unsigned opc;
    const Instruction* I;
    u32 dst = 0, n = 0;
    vector<Opn> ops;
    vector<uint16_t> ws;     // result widths
    unsigned aux = 0, aux2 = 0;
    u64 imm = 0;
    vector<pair<u32, u64>> scaled;  // gep: (operand index, scale)
    int succ[2] = { -1, -1 };
    vector<int> succs;
    Handler h = nullptr;
    FuncInfo* callee = nullptr;
    string name;
    vector<uint16_t> ws2;
    vector<u32> shuf;
};
struct PhiCopy { u32 dst, n; Opn src; };
struct BBInfo
{
    u32 start, nphi;
    map<int, vector<PhiCopy>> phis; // pred -> copies
};
struct FuncInfo
{
    const Function* F = nullptr;
    bool decoded = false;
    vector<DI> code;
    vector<BBInfo> bbs;
    u32 nregs = 0;
    vector<u32> argOff, argN;
    string name;
};
static Module* M;
static const DataLayout* DL;
static vector<Val> constPool;
static unordered_map<const Value*, Opn> constMemo;
static unordered_map<const GlobalValue*, u64> gaddr;
static map<u64, const GlobalVariable*> addrG;
static map<u64, const Function*> addrF;
static unordered_map<const Function*, unique_ptr<FuncInfo>> funcs;
static unordered_map<const GlobalVariable*, shared_ptr<Data>> ginit;

struct EvalCtx
{
    Assign m;
    unique_ptr<Evaluator> ev;
    EvalCtx(Assign a) : m(move(a)), ev(new Evaluator(m)) {}
};
struct Frame
{
    FuncInfo* f;
    vector<Val> regs;
    int bb = 0;
    u32 pc = 0;
    vector<u64> allocas;
    const DI* call = nullptr; // call instruction in the caller
};
struct State
{
    vector<Frame> st;
    Mem mem;
    vector<const Expr*> pc;
    shared_ptr<EvalCtx> model;
    vector<u32> symOrder;
    map<string, int> symCount;
    u64 steps = 0, fuel = 0;
    string fuelMsg;
    u64 exn = 0, exnType = 0;
    vector<u64> caught;
    u64 seen = 0;
    int concDepth = 0;
};
static vector<unique_ptr<State>> work;
static State* cur;

static void flat(Type* T, vector<uint16_t>& ws)
{
    if (T->isIntegerTy()) ws.push_back(T->getIntegerBitWidth());
    else if (T->isFloatTy()) ws.push_back(32);
    else if (T->isDoubleTy()) ws.push_back(64);
    else if (T->isPointerTy()) ws.push_back(64);
    else if (T->isX86_FP80Ty()) ws.push_back(80);
    else if (auto* V = dyn_cast<FixedVectorType>(T))
    {
        vector<uint16_t> e;
        flat(V->getElementType(), e);
        for (unsigned i = 0; i < V->getNumElements(); i++) ws.insert(ws.end(), e.begin(), e.end());
    }
    else if (auto* A = dyn_cast<ArrayType>(T))
    {
        vector<uint16_t> e;
        flat(A->getElementType(), e);
        for (unsigned i = 0; i < A->getNumElements(); i++) ws.insert(ws.end(), e.begin(), e.end());
    }
    else if (auto* S = dyn_cast<StructType>(T))
        for (auto* t : S->elements()) flat(t, ws);
    else if (T->isVoidTy()) {}
    else if (T->isTokenTy() || T->isMetadataTy()) {}
    else
    {
        string s;
        raw_string_ostream os(s);
        T->print(os);
        throw Unsupported{ "type " + s };
    }
}
static unsigned flatN(Type* T)
{
    vector<uint16_t> w;
    flat(T, w);
    return w.size();
}
// flattened leaf layout: (offset, width); vectors of i1 are not allowed here
struct Leaf { u64 off; uint16_t w; };
static void layout(Type* T, u64 base, vector<Leaf>& out)
{
    if (auto* V = dyn_cast<FixedVectorType>(T))
    {
        unsigned ew = DL->getTypeSizeInBits(V->getElementType());
        if (ew % 8) throw Unsupported{ "bit vector in memory" };
        for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back({ base + i * (ew / 8), (uint16_t)ew });
    }
    else if (auto* A = dyn_cast<ArrayType>(T))
    {
        u64 es = DL->getTypeAllocSize(A->getElementType());
        for (unsigned i = 0; i < A->getNumElements(); i++) layout(A->getElementType(), base + i * es, out);
    }
    else if (auto* S = dyn_cast<StructType>(T))
    {
        auto* L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) layout(S->getElementType(i), base + L->getElementOffset(i), out);
    }
    else
    {
        vector<uint16_t> w;
        flat(T, w);
        out.push_back({ base, w[0] });
    }
}
static void constVals(const Constant* C, vector<Val>& out);
static Val constScalar(const Constant* C)
{
    vector<Val> v;
    constVals(C, v);
    if (v.size() != 1) throw Unsupported{ "constant shape" };
    return v[0];
}
static u64 funcAddr(const Function* F)
{
    auto it = gaddr.find(F);
    return it->second;
}
static void constVals(const Constant* C, vector<Val>& out)
{
    Type* T = C->getType();
    if (auto* CI = dyn_cast<ConstantInt>(C)) { out.push_back(fromAP(CI->getValue())); return; }
    if (auto* CF = dyn_cast<ConstantFP>(C)) { out.push_back(fromAP(CF->getValueAPF().bitcastToAPInt())); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(mkc(64, 0)); return; }
    if (isa<ConstantTokenNone>(C)) return;
    if (isa<UndefValue>(C))
    {
        vector<uint16_t> ws;
        flat(T, ws);
        for (auto w : ws) out.push_back(mkUndef(w));
        return;
    }
    if (isa<ConstantAggregateZero>(C))
    {
        vector<uint16_t> ws;
        flat(T, ws);
        for (auto w : ws) out.push_back(fromAP(APInt(w, 0)));
        return;
    }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C))
    {
        for (unsigned i = 0; i < CD->getNumElements(); i++) constVals(CD->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(C))
    {
        for (auto& o : C->operands()) constVals(cast<Constant>(o), out);
        return;
    }
    if (auto* A = dyn_cast<GlobalAlias>(C)) { constVals(A->getAliasee(), out); return; }
    if (auto* G = dyn_cast<GlobalValue>(C))
    {
        out.push_back(mkc(64, gaddr.at(G)));
        return;
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C))
    {
        auto op = [&](unsigned i) { return constScalar(CE->getOperand(i)); };
        switch (CE->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            auto* G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) throw Unsupported{ "const gep" };
            out.push_back(vBin(OAdd, op(0), fromAP(off)));
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr:
        {
            unsigned w = DL->getTypeSizeInBits(T);
            Val v = op(0);
            out.push_back(w <= v.w ? vTrunc(v, w) : vZExt(v, w));
            return;
        }
        case Instruction::BitCast:
        {
            vector<Val> v;
            constVals(CE->getOperand(0), v);
            vector<uint16_t> ws;
            flat(T, ws);
            if (v.size() == ws.size()) { for (auto& x : v) out.push_back(x); return; }
            throw Unsupported{ "const bitcast" };
        }
        case Instruction::Add: out.push_back(vBin(OAdd, op(0), op(1))); return;
        case Instruction::Sub: out.push_back(vBin(OSub, op(0), op(1))); return;
        case Instruction::Xor: out.push_back(vBin(OXor, op(0), op(1))); return;
        case Instruction::Mul: out.push_back(vBin(OMul, op(0), op(1))); return;
        case Instruction::Trunc: out.push_back(vTrunc(op(0), DL->getTypeSizeInBits(T))); return;
        case Instruction::ICmp:
        {
            Val a = op(0), b = op(1);
            switch (cast<ConstantExpr>(C)->getPredicate())
            {
            case CmpInst::ICMP_EQ: out.push_back(vEq(a, b)); return;
            case CmpInst::ICMP_NE: out.push_back(vNot(vEq(a, b))); return;
            default: break;
            }
            break;
        }
        default: break;
        }
    }
    string s;
    raw_string_ostream os(s);
    C->print(os);
    throw Unsupported{ "constant " + s };
}
static Opn constOpn(const Constant* C)
{
    auto it = constMemo.find(C);
    if (it != constMemo.end()) return it->second;
    vector<Val> v;
    constVals(C, v);
    Opn o{ true, (u32)constPool.size(), (u32)v.size() };
    for (auto& x : v) constPool.push_back(x);
    constMemo[C] = o;
    return o;
}

// ------------------------------------------------------------------ helpers over the current state
static string where(State& s)
{
    string r;
    int n = 0;
    for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--)
    {
        Frame& f            = s.st[i];
        u32 pc              = f.pc;
        const Instruction* I = pc < f.f->code.size() ? f.f->code[pc].I : nullptr;
        string loc;
        if (I && I->getDebugLoc())
        {
            DILocation* L = I->getDebugLoc().get();
            while (L && n < 6)
            {
                string nm = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
                r += (r.empty() ? "" : " < ") + nm + "@" + L->getFilename().str() + ":" + to_string(L->getLine());
                L = L->getInlinedAt();
                n++;
            }
        }
        else
        {
            r += (r.empty() ? "" : " < ") + llvm::demangle(f.f->name).substr(0, 80);
            n++;
        }
    }
    return r;
}
static vector<pair<string, APInt>> assignment(State& s, const Assign& m)
{
    vector<pair<string, APInt>> r;
    for (u32 x : s.symOrder)
    {
        auto it = m.find(x);
        r.push_back({ syms[x].name, it == m.end() ? symDefault(x) : it->second });
    }
    return r;
}
static bool depUndef(const Expr* e)
{
    if (!e) return false;
    auto& v = symsOf(e);
    return !v.empty() && v.back() == ~0u;
}
static void addViolation(State& s, const string& kind, const string& msg, const Assign& m)
{
    string w = where(s);
    for (auto& v : violations)
        if (v.msg == msg && v.kind == kind) return;
    violations.push_back({ msg, w, kind, assignment(s, m) });
    if (optVerbose) fprintf(stderr, "VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str());
    if ((int)violations.size() >= optMaxViol) throw Timeout{};
}
[[noreturn]] static void memErr(State& s, const string& msg)
{
    addViolation(s, "memory", msg, s.model->m);
    throw PathDone{};
}
// constraints relevant to e
static vector<const Expr*> slice(State& s, const Expr* e)
{
    set<u32> vs;
    for (u32 x : symsOf(e)) if (x != ~0u) vs.insert(x);
    vector<bool> used(s.pc.size(), false);
    vector<const Expr*> r{ e };
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++)
            if (!used[i])
            {
                auto& y  = symsOf(s.pc[i]);
                bool hit = false;
                for (u32 x : y) if (vs.count(x)) { hit = true; break; }
                if (hit)
                {
                    used[i] = true;
                    ch      = true;
                    r.push_back(s.pc[i]);
                    for (u32 x : y) if (x != ~0u) vs.insert(x);
                }
            }
    }
    return r;
}
static Res feasible(State& s, const Val& c, shared_ptr<EvalCtx>& out)
{
    if (c.isC()) { out = s.model; return c.c ? RSat : RUnsat; }
    if (s.model->ev->truth(c.e)) { out = s.model; return RSat; }
    Assign m = s.model->m;
    Res r    = solve(slice(s, c.e), m);
    if (r == RSat) out = make_shared<EvalCtx>(move(m));
    return r;
}
static void addPC(State& s, const Val& c)
{
    if (c.isC()) return;
    // split conjunctions for better slicing
    if (c.e->op == OAnd && c.w == 1)
    {
        addPC(s, fromExpr(c.e->k[0]));
        addPC(s, fromExpr(c.e->k[1]));
        return;
    }
    for (auto p : s.pc) if (p == c.e) return;
    s.pc.push_back(c.e);
}
static void noteUnknown(State& s, const string& what)
{
    string m = what + " undecided (solver budget) at " + where(s);
    if (find(inconclusive.begin(), inconclusive.end(), m) == inconclusive.end()) inconclusive.push_back(m);
}
// fork so that in the current state v is concrete; returns its value. The current instruction is re-executed in the other state.
static u64 conc(State& s, const Val& v)
{
    if (v.isC()) return v.c;
    if (depUndef(v.e) && symsOf(v.e).size() == 1) { addViolation(s, "uninit", "value used depends on uninitialised memory", s.model->m); throw PathDone{}; }
    APInt x = s.model->ev->eval(v.e);
    Val eq  = vEq(v, fromAP(x));
    Val ne  = vNot(eq);
    shared_ptr<EvalCtx> m2;
    Res r = feasible(s, ne, m2);
    if (r == RUnknown) noteUnknown(s, "concretisation");
    if (r == RSat)
    {
        auto n   = make_unique<State>(s);
        n->model = m2;
        addPC(*n, ne);
        work.push_back(move(n));
        nForks++;
    }
    addPC(s, eq);
    return x.getZExtValue();
}
static bool concBool(State& s, const Val& v)
{
    if (v.isC()) return v.c;
    return conc(s, v);
}
static Obj* findObj(State& s, u64 a)
{
    auto it = s.mem.objs.upper_bound(a);
    if (it != s.mem.objs.begin())
    {
        --it;
        Obj& o = it->second;
        if (a >= o.base && a <= o.base + o.size) return &o;
    }
    auto g = addrG.upper_bound(a);
    if (g != addrG.begin())
    {
        --g;
        const GlobalVariable* G = g->second;
        u64 sz = DL->getTypeAllocSize(G->getValueType());
        if (a >= g->first && a <= g->first + sz)
        {
            auto& d = ginit[G];
            if (!d)
            {
                d = make_shared<Data>();
                d->raw.assign(sz, 0);
                if (G->hasInitializer())
                {
                    vector<Val> vs;
                    vector<Leaf> lf;
                    if (!isa<ConstantAggregateZero>(G->getInitializer()))
                    {
                        constVals(G->getInitializer(), vs);
                        layout(G->getValueType(), 0, lf);
                        Obj tmp{ 0, sz, OGlobal, false, d };
                        for (size_t i = 0; i < vs.size(); i++)
                        {
                            if (vs[i].e && vs[i].e->op == OUndef) continue;
                            // avoid the copy-on-write (d is shared with the table)
                            Val& v = vs[i];
                            unsigned n = (v.w + 7) / 8;
                            if (v.isC() && n <= 8) memcpy(d->raw.data() + lf[i].off, &v.c, n);
                            else
                            {
                                APInt a2 = toAP(v).zext(n * 8);
                                for (unsigned q = 0; q < n; q++) d->raw[lf[i].off + q] = a2.extractBitsAsZExtValue(8, q * 8);
                            }
                        }
                    }
                }
                else
                {
                    StringRef nm = G->getName();
                    if (nm == "__libc_single_threaded") d->raw[0] = 1;
                }
            }
            Obj o{ g->first, sz, OGlobal, G->isConstant(), d };
            return &(s.mem.objs[g->first] = o);
        }
    }
    return nullptr;
}
static string hex(u64 v)
{
    char b[32];
    snprintf(b, 32, "0x%llx", (unsigned long long)v);
    return b;
}
static Obj* access(State& s, u64 a, u64 n, bool write)
{
    Obj* o = findObj(s, a);
    if (o && a + n > o->base + o->size)
    {
        // adjacent-object corner: a == end of o but also start of another object
        string k = o->kind == OHeap ? "heap" : o->kind == OStack ? "stack" : "global";
        memErr(s, string(write ? "write" : "read") + " of " + to_string(n) + " bytes at offset " + to_string(a - o->base) + " of " + k +
                      " object of " + to_string(o->size) + " bytes");
    }
    if (!o)
    {
        if (a < 4096) memErr(s, string(write ? "write" : "read") + " through null pointer");
        memErr(s, string(write ? "write" : "read") + " through invalid or freed pointer");
    }
    if (write && o->ro) memErr(s, "write to constant object");
    return o;
}
static u64 allocObj(State& s, u64 size, u64 align, uint8_t kind, bool undefInit, u64 mod = 0)
{
    u64& nx = kind == OStack ? s.mem.nextStack : s.mem.nextHeap;
    if (align < 16) align = 16;
    u64 a = (nx + 64 + 2 * align - 1) / (2 * align) * (2 * align) + align; // aligned exactly to `align`, not more
    if (kind == OHeap && mod) a = (nx + 64 + 127) / 128 * 128 + mod;
    nx = a + size + 64;
    Obj o{ a, size, kind, false, make_shared<Data>() };
    o.d->raw.assign(size, 0);
    if (undefInit && size) o.d->cells.assign(size, Cell{ undef8(), 0 });
    s.mem.objs[a] = move(o);
    return a;
}
static Val loadAt(State& s, u64 a, unsigned w)
{
    Obj* o = access(s, a, (w + 7) / 8, false);
    return loadBytes(*o, a - o->base, w);
}
static void storeAt(State& s, u64 a, const Val& v)
{
    Obj* o = access(s, a, (v.w + 7) / 8, true);
    storeBytes(*o, a - o->base, v);
}
// all feasible values of a symbolic address (sound: ends with unsat)
static bool enumAddr(State& s, const Val& p, vector<u64>& out)
{
    Val rest = mkc(1, 1);
    u64 x    = s.model->ev->eval(p.e).getZExtValue();
    vector<const Expr*> base = slice(s, toExpr(p));
    base.erase(base.begin());
    // fast path: few distinct symbols with small width -> still solver
    for (;;)
    {
        out.push_back(x);
        rest = vAnd1(rest, vNot(vEq(p, mkc(64, x))));
        if (out.size() > optMaxEnum) return false;
        if (rest.isC()) return rest.c == 0;
        vector<const Expr*> q = base;
        q.push_back(rest.e);
        Assign m;
        Res r = solve(q, m);
        if (r == RUnsat) return true;
        if (r == RUnknown) return false;
        Assign mm = s.model->m;
        for (auto& z : m) mm[z.first] = z.second;
        Evaluator ev(mm);
        x = ev.eval(p.e).getZExtValue();
        if (elapsed() > optMaxTime) throw Timeout{};
    }
}
// make the model of s satisfy p==x, used to report an error at a particular address
static void pickAddr(State& s, const Val& p, u64 x)
{
    shared_ptr<EvalCtx> m;
    Val c = vEq(p, mkc(64, x));
    if (feasible(s, c, m) == RSat) { s.model = m; addPC(s, c); }
}
static Obj* tryAccess(State& s, u64 a, u64 n)
{
    Obj* o = findObj(s, a);
    if (!o || a + n > o->base + o->size) return nullptr;
    return o;
}
static map<const Expr*, vector<u64>> addrCache;
static vector<u64> addrs(State& s, const Val& p)
{
    vector<u64> v;
    if (depUndef(p.e)) { addViolation(s, "uninit", "address depends on uninitialised memory", s.model->m); throw PathDone{}; }
    if (!enumAddr(s, p, v)) throw Unsupported{ "symbolic address with too many values at " + where(s) };
    std::sort(v.begin(), v.end());
    return v;
}
static void checkAlign(State& s, u64 a, u64 al)
{
    if (al >= 16 && a % al) memErr(s, "misaligned access: address " + hex(a) + " requires alignment " + to_string(al));
}
static void loadT(State& s, const Val& p, const vector<Leaf>& lf, Val* dst, u64 align)
{
    if (LIKELY(p.isC()))
    {
        checkAlign(s, p.c, align);
        u64 end = 0;
        for (auto& l : lf) end = max<u64>(end, l.off + (l.w + 7) / 8);
        Obj* o = access(s, p.c, end, false);
        u64 b  = p.c - o->base;
        for (size_t i = 0; i < lf.size(); i++) dst[i] = loadBytes(*o, b + lf[i].off, lf[i].w);
        return;
    }
    vector<u64> as = addrs(s, p);
    u64 end        = 0;
    for (auto& l : lf) end = max<u64>(end, l.off + (l.w + 7) / 8);
    for (u64 a : as)
        if (!tryAccess(s, a, end) || (align >= 16 && a % align))
        {
            pickAddr(s, p, a);
            checkAlign(s, a, align);
            access(s, a, end, false);
        }
    for (size_t i = 0; i < lf.size(); i++)
    {
        Val r;
        for (size_t k = 0; k < as.size(); k++)
        {
            Obj* o = tryAccess(s, as[k], end);
            Val v  = loadBytes(*o, as[k] - o->base + lf[i].off, lf[i].w);
            r      = k == 0 ? v : vIte(vEq(p, mkc(64, as[k])), v, r);
        }
        dst[i] = r;
    }
}
static void storeT(State& s, const Val& p, const vector<Leaf>& lf, const Val* v, u64 align)
{
    u64 end = 0;
    for (auto& l : lf) end = max<u64>(end, l.off + (l.w + 7) / 8);
    if (LIKELY(p.isC()))
    {
        checkAlign(s, p.c, align);
        Obj* o = access(s, p.c, end, true);
        u64 b  = p.c - o->base;
        for (size_t i = 0; i < lf.size(); i++) storeBytes(*o, b + lf[i].off, v[i]);
        return;
    }
    vector<u64> as = addrs(s, p);
    for (u64 a : as)
    {
        Obj* o = tryAccess(s, a, end);
        if (!o || o->ro || (align >= 16 && a % align))
        {
            pickAddr(s, p, a);
            checkAlign(s, a, align);
            access(s, a, end, true);
        }
    }
    for (u64 a : as)
    {
        Obj* o = tryAccess(s, a, end);
        Val c  = vEq(p, mkc(64, a));
        for (size_t i = 0; i < lf.size(); i++)
        {
            Val old = loadBytes(*o, a - o->base + lf[i].off, lf[i].w);
            storeBytes(*o, a - o->base + lf[i].off, vIte(c, v[i], old));
        }
    }
}
static void copyMem(State& s, u64 d, u64 sp, u64 n)
{
    if (!n) return;
    Obj* so = access(s, sp, n, false);
    access(s, d, n, true);
    so            = access(s, sp, n, false);
    auto sd       = so->d; // keep alive
    u64 sb        = sp - so->base;
    Obj* dobj     = access(s, d, n, true);
    u64 db        = d - dobj->base;
    vector<uint8_t> raw(sd->raw.begin() + sb, sd->raw.begin() + sb + n);
    vector<Cell> cl;
    if (!sd->cells.empty()) cl.assign(sd->cells.begin() + sb, sd->cells.begin() + sb + n);
    sd.reset();
    wr(*dobj);
    Data& dd = *dobj->d;
    memcpy(dd.raw.data() + db, raw.data(), n);
    if (!cl.empty())
    {
        bool any = false;
        for (auto& c : cl) if (c.e) { any = true; break; }
        if (any && dd.cells.empty()) dd.cells.assign(dd.raw.size(), Cell{ nullptr, 0 });
        if (!dd.cells.empty()) copy(cl.begin(), cl.end(), dd.cells.begin() + db);
    }
    else if (!dd.cells.empty())
        for (u64 i = 0; i < n; i++) dd.cells[db + i].e = nullptr;
}
static void freeObj(State& s, u64 a)
{
    if (!a) return;
    auto it = s.mem.objs.find(a);
    if (it == s.mem.objs.end() || it->second.kind != OHeap) memErr(s, "invalid or double free");
    s.mem.objs.erase(it);
    s.mem.heapLive--;
}
static u64 heapAlloc(State& s, u64 n, u64 align = 16, bool zero = false)
{
    if (n > (1ull << 30)) throw Unsupported{ "huge allocation " + to_string(n) };
    s.mem.heapLive++;
    s.mem.heapAllocs++;
    u64 a = allocObj(s, n, align, OHeap, !zero, align <= 16 ? 16 : 0);
    return a;
}
static string readStr(State& s, u64 a)
{
    string r;
    for (;;)
    {
        Val v = loadAt(s, a++, 8);
        if (!v.isC() || !v.c || r.size() > 4000) break;
        r += (char)v.c;
    }
    return r;
}

static FuncInfo* getFunc(const Function* F);
static const Val* opv(State& s, const Opn& o)
{
    return o.isConst ? &constPool[o.off] : &s.st.back().regs[o.off];
}
#define OPV(i) opv(s, di.ops[i])
#define OP1(i) (*opv(s, di.ops[i]))

// ------------------------------------------------------------------ exceptions
static bool unwind(State& s);
static u64 typeAddr(const string& name)
{
    if (auto* G = M->getNamedGlobal(name)) return gaddr[G];
    static map<string, u64> extra;
    auto& e = extra[name];
    if (!e) e = 0x5000 + extra.size() * 16;
    return e;
}
static const map<string, string> stdBase = {
    { "_ZTISt11logic_error", "_ZTISt9exception" },      { "_ZTISt13runtime_error", "_ZTISt9exception" },
    { "_ZTISt12length_error", "_ZTISt11logic_error" },  { "_ZTISt12out_of_range", "_ZTISt11logic_error" },
    { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt9bad_alloc", "_ZTISt9exception" },
    { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" },
    { "_ZTISt12system_error", "_ZTISt13runtime_error" },
};
static string globalNameAt(u64 a)
{
    auto it = addrG.find(a);
    return it == addrG.end() ? "" : it->second->getName().str();
}
static bool typeMatch(State& s, u64 thrown, u64 c, int depth = 0)
{
    if (thrown == c) return true;
    if (depth > 8 || !thrown) return false;
    string n = globalNameAt(thrown);
    auto it  = stdBase.find(n);
    if (it != stdBase.end()) return typeMatch(s, typeAddr(it->second), c, depth + 1);
    // __si_class_type_info { vptr, name, base }
    Obj* o = findObj(s, thrown);
    if (o && o->size >= 24)
    {
        Val b = loadBytes(*o, 16, 64);
        if (b.isC()) return typeMatch(s, b.c, c, depth + 1);
    }
    return false;
}
static void throwType(State& s, const string& ti)
{
    u64 o     = heapAlloc(s, 64, 16, true);
    s.exn     = o;
    s.exnType = typeAddr(ti);
    unwind(s);
}
static bool gotoBB(State& s, int bb);
// pops frames until a matching landing pad; the instruction at the top frame's pc is the throwing call
static bool unwind(State& s)
{
    for (;;)
    {
        Frame& f     = s.st.back();
        const DI& di = f.f->code[f.pc];
        if (di.opc == Instruction::Invoke)
        {
            auto* LP = cast<InvokeInst>(di.I)->getLandingPadInst();
            bool stop = LP->isCleanup();
            u64 sel   = 0;
            for (unsigned i = 0; i < LP->getNumClauses(); i++)
            {
                if (LP->isCatch(i))
                {
                    Val t = constScalar(LP->getClause(i));
                    if (t.c == 0 || typeMatch(s, s.exnType, t.c))
                    {
                        stop = true;
                        sel  = t.c == 0 ? 0x7fff : (t.c & 0x7fffffff);
                        break;
                    }
                }
                else
                    stop = true; // filter: treated as reached (noexcept style)
            }
            if (stop)
            {
                gotoBB(s, di.succ[1]);
                Frame& g       = s.st.back();
                const DI& lpd  = g.f->code[g.pc];
                g.regs[lpd.dst]     = mkc(64, s.exn);
                g.regs[lpd.dst + 1] = mkc(32, sel);
                g.pc++;
                return true;
            }
        }
        for (u64 a : f.allocas) s.mem.objs.erase(a);
        s.st.pop_back();
        if (s.st.empty())
        {
            s.st.push_back(Frame{ getFunc(M->getFunction("__ksym_dummy")), {}, 0, 0, {}, nullptr });
            addViolation(s, "exception", "uncaught exception " + globalNameAt(s.exnType), s.model->m);
            throw PathDone{};
        }
    }
}

// ------------------------------------------------------------------ symbolic API
static Val newSym(State& s, const string& nm, unsigned w, bool isF, bool ranged = false, double lo = 0, double hi = 0)
{
    static map<pair<string, int>, Val> pool;
    int k     = s.symCount[nm]++;
    string id = nm + (k ? "#" + to_string(k) : "");
    Val& v    = pool[{ nm + "/" + to_string(w) + (ranged ? to_string(lo) + "," + to_string(hi) : ""), k }];
    if (!v.w)
    {
        v = mkSym(id, w, isF, ranged, lo, hi);
    }
    u32 x = v.e->aux;
    s.symOrder.push_back(x);
    if (optConcrete)
    {
        u64 h = optSeed * 0x9E3779B97F4A7C15ull;
        for (char c : id) h = (h ^ (unsigned char)c) * 1099511628211ull;
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        APInt val(w, 0);
        if (ranged)
        {
            double d = lo + (hi - lo) * ((h >> 11) * 0x1p-53);
            val      = !isF ? APInt(w, (u64)(i64)d, true) : w == 32 ? APInt(32, fb32((float)d)) : APInt(64, fb64(d));
        }
        else if (isF)
        {
            double d = ((double)(i64)h) * 0x1p-56;
            val      = w == 32 ? APInt(32, fb32((float)d)) : APInt(64, fb64(d));
        }
        else
            val = APInt(w, h % 3 == 0 ? h % 7 : h);
        s.model->m[x] = val;
        return fromAP(val);
    }
    if (ranged && !isF)
    {
        addPC(s, vBin(OSle, mkc(w, (u64)(i64)lo), v));
        addPC(s, vBin(OSle, v, mkc(w, (u64)(i64)hi)));
    }
    else if (ranged)
    {
        Val l = w == 32 ? mkc(32, fb32((float)lo)) : mkc(64, fb64(lo));
        Val h = w == 32 ? mkc(32, fb32((float)hi)) : mkc(64, fb64(hi));
        addPC(s, vFCmp(2, l, v));
        addPC(s, vFCmp(2, v, h));
    }
    return v;
}
static void doAssert(State& s, const Val& c, const string& msg, const Val* known = nullptr, const string& kid = "")
{
    nAsserts++;
    assertMsgs[msg]++;
    if (c.isC())
    {
        if (c.c) return;
        if (known)
        {
            shared_ptr<EvalCtx> m;
            if (feasible(s, *known, m) == RSat)
            {
                if (find(knownHits.begin(), knownHits.end(), kid) == knownHits.end())
                {
                    knownHits.push_back(kid);
                    knownWit.push_back({ msg, where(s), kid, assignment(s, m->m) });
                }
            }
            Val nk = vNot(*known);
            if (feasible(s, nk, m) == RSat) addViolation(s, "assert", msg, m->m);
            throw PathDone{};
        }
        addViolation(s, "assert", msg, s.model->m);
        throw PathDone{};
    }
    nAssertSym++;
    if (depUndef(c.e))
    {
        if (optVerbose) fprintf(stderr, "%s\n", exprStr(c.e, 12).c_str());
        addViolation(s, "uninit", msg + " (depends on uninitialised memory)", s.model->m);
        throw PathDone{};
    }
    Val neg = vNot(c);
    shared_ptr<EvalCtx> m;
    if (known)
    {
        Val both = vAnd1(neg, *known);
        if (feasible(s, both, m) == RSat && find(knownHits.begin(), knownHits.end(), kid) == knownHits.end())
        {
            knownHits.push_back(kid);
            knownWit.push_back({ msg, where(s), kid, assignment(s, m->m) });
        }
        neg = vAnd1(neg, vNot(*known));
    }
    Res r = feasible(s, neg, m);
    if (r == RSat) addViolation(s, "assert", msg, m->m);
    else if (r == RUnknown) noteUnknown(s, "assert '" + msg + "'");
    // continue on the passing side
    Res q = feasible(s, c, m);
    if (q == RUnsat) throw PathDone{};
    if (q == RSat) { s.model = m; if (r != RUnsat) addPC(s, c); }
}
static void doClose(State& s, const Val& a, const Val* ref, const vector<Val>& lv, const vector<double>& lc, double tol, const string& msg)
{
    nAsserts++;
    assertMsgs[msg]++;
    auto conc1 = [&](const Assign& m, double& dev) -> bool
    { // true: closeness holds under m
        Evaluator ev(m);
        for (auto p : s.pc) if (!ev.truth(p)) return true;
        double x = bf64(ev.eval(toExpr(a)).getZExtValue());
        long double r = 0;
        if (ref) r = bf64(ev.eval(toExpr(*ref)).getZExtValue());
        else
            for (size_t i = 0; i < lv.size(); i++) r += (long double)lc[i] * bf64(ev.eval(toExpr(lv[i])).getZExtValue());
        dev = fabsl(x - r);
        return dev <= tol;
    };
    bool allc = a.isC() && (!ref || ref->isC());
    for (auto& v : lv) allc &= v.isC();
    double dev = 0;
    if (allc)
    {
        if (!conc1(s.model->m, dev) || std::isnan(dev)) { addViolation(s, "close", msg + " deviation " + to_string(dev), s.model->m); throw PathDone{}; }
        return;
    }
    nAssertSym++;
    if (a.e && depUndef(a.e))
    {
        addViolation(s, "uninit", msg + " (depends on uninitialised memory)", s.model->m);
        throw PathDone{};
    }
    vector<const Expr*> le;
    for (auto& v : lv) le.push_back(toExpr(v));
    CloseResult R = closeCheck(toExpr(a), ref ? toExpr(*ref) : nullptr, le.data(), lc.data(), le.size(), tol);
    double& w     = closeWorst[msg];
    w             = max(w, (R.bound + R.maxdev) / tol);
    if (R.res == RUnsat) return;
    // candidates
    vector<Assign> cand;
    if (R.res == RSat)
    {
        Assign m = s.model->m;
        for (auto& p : R.corner) m[p.first] = p.second;
        cand.push_back(m);
    }
    cand.push_back(s.model->m);
    u64 h = 12345;
    set<u32> sy;
    for (u32 x : symsOf(toExpr(a))) sy.insert(x);
    for (auto e : le) for (u32 x : symsOf(e)) sy.insert(x);
    if (ref) for (u32 x : symsOf(toExpr(*ref))) sy.insert(x);
    for (int k = 0; k < 60; k++)
    {
        Assign m = s.model->m;
        for (u32 x : sy)
            if (x != ~0u && syms[x].ranged)
            {
                h = h * 6364136223846793005ull + 1442695040888963407ull;
                double u = k % 2 ? (double)((h >> 40) & 1) : (h >> 11) * 0x1p-53;
                double d = syms[x].lo + (syms[x].hi - syms[x].lo) * u;
                m[x] = !syms[x].isF ? APInt(syms[x].w, (u64)(i64)d, true) : syms[x].w == 32 ? APInt(32, fb32((float)d)) : APInt(64, fb64(d));
            }
        cand.push_back(m);
    }
    for (auto& m : cand)
        if (!conc1(m, dev) || std::isnan(dev))
        {
            char b[64];
            snprintf(b, 64, " (deviation %.3g, tolerance %.3g)", dev, tol);
            addViolation(s, "close", msg + b, m);
            throw PathDone{};
        }
    char b[200];
    snprintf(b, 200, "close '%s': relaxation not tight enough (err %.3g dev %.3g tol %.3g) %s", msg.substr(0, 60).c_str(), R.bound, R.maxdev, tol, R.why.c_str());
    string sb = string(b) + R.why;
    if (inconclusive.size() < 20) inconclusive.push_back(sb);
}

static void doCloseFn(State& s, const Val& a, const Val& ref, double abstol, double reltol, const string& msg)
{
    nAsserts++;
    assertMsgs[msg]++;
    if (a.isC() && ref.isC())
    {
        double x = bf64(a.c), r = bf64(ref.c);
        bool ok  = std::isnan(x) || std::isnan(r) ? std::isnan(x) && std::isnan(r) : std::isinf(x) || std::isinf(r) ? x == r : fabs(x - r) <= abstol + reltol * fabs(r);
        char b[100];
        snprintf(b, 100, " (%.17g instead of %.17g)", x, r);
        if (!ok) { addViolation(s, "close", msg + b, s.model->m); throw PathDone{}; }
        return;
    }
    nAssertSym++;
    if (depUndef(toExpr(a)))
    {
        addViolation(s, "uninit", msg + " (depends on uninitialised memory)", s.model->m);
        throw PathDone{};
    }
    FnResult R = decideFn(toExpr(a), toExpr(ref), abstol, reltol);
    double& w  = closeWorst[msg];
    w          = max(w, R.worst);
    fnBoxes += R.boxes;
    fnLeaves += R.leaves;
    fnPoints += R.points;
    if (R.res == RUnsat) return;
    char b[200];
    if (R.res == RSat)
    {
        Assign m = s.model->m;
        for (auto& p : R.corner) m[p.first] = p.second;
        Evaluator ev(m);
        bool in = true;
        for (auto p : s.pc) in &= ev.truth(p);
        snprintf(b, 200, " (%.17g instead of %.17g)", R.got, R.want);
        if (in) { addViolation(s, "close", msg + b, m); throw PathDone{}; }
        R.why = "counterexample outside of the path";
    }
    snprintf(b, 200, "close '%s': %s after %zu parts", msg.substr(0, 60).c_str(), R.why.c_str(), R.boxes);
    if (inconclusive.size() < 20) inconclusive.push_back(b);
}

#include "handlers.h"
#include "interp.h"
