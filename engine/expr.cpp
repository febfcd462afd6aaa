#include "expr.h"
#include <cfenv>
#include <algorithm>
#include <deque>
using namespace std;

const char* opName[] = { "const", "sym", "undef", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and",
                         "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite",
                         "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem",
                         "fneg", "fabs", "fsqrt", "fma", "fcmp", "fround", "fptosi", "fptoui", "sitofp",
                         "uitofp", "fpext", "fptrunc", "xaddr", "xmulr", "fun" };
vector<SymInfo> syms;
vector<string> funNames;
u32 funId(const string& s)
{
    for (u32 i = 0; i < funNames.size(); i++)
        if (funNames[i] == s)
            return i;
    funNames.push_back(s);
    return funNames.size() - 1;
}

namespace
{
struct KeyHash
{
    size_t operator()(const Expr* e) const
    {
        size_t h = e->op * 1000003u + e->w * 7919u + e->aux * 104729u;
        for (int i = 0; i < e->nk; i++)
            h = h * 1099511628211ull ^ (e->k[i]->id + 0x9e3779b97f4a7c15ull);
        if (e->c)
            h ^= hash_value(*e->c);
        return h;
    }
};
struct KeyEq
{
    bool operator()(const Expr* a, const Expr* b) const
    {
        if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->nk != b->nk)
            return false;
        for (int i = 0; i < a->nk; i++)
            if (a->k[i] != b->k[i])
                return false;
        if (a->op == OConst)
            return *a->c == *b->c;
        return true;
    }
};
unordered_set<Expr*, KeyHash, KeyEq> table;
deque<Expr> arena;
} // namespace
size_t exprCount() { return arena.size(); }

static const Expr* intern(Expr& t)
{
    auto it = table.find(&t);
    if (it != table.end())
        return *it;
    if (t.c)
        t.c = new APInt(*t.c);
    t.id = arena.size();
    arena.push_back(t);
    table.insert(&arena.back());
    return &arena.back();
}
static const Expr* mk(Op op, unsigned w, u32 aux, const Expr* a = nullptr, const Expr* b = nullptr,
                      const Expr* c = nullptr)
{
    Expr t;
    t.op   = op;
    t.w    = w;
    t.aux  = aux;
    t.c    = nullptr;
    t.k[0] = a;
    t.k[1] = b;
    t.k[2] = c;
    t.nk   = a ? (b ? (c ? 3 : 2) : 1) : 0;
    t.id   = 0;
    return intern(t);
}
const Expr* mkConst(const APInt& a)
{
    Expr t;
    APInt tmp = a;
    t.op      = OConst;
    t.w       = a.getBitWidth();
    t.aux     = 0;
    t.nk      = 0;
    t.k[0] = t.k[1] = t.k[2] = nullptr;
    t.c                      = &tmp;
    t.id                     = 0;
    return intern(t);
}
Val fromAP(const APInt& a)
{
    Val v;
    v.w = a.getBitWidth();
    if (v.w <= 64)
        v.c = a.getZExtValue();
    else
        v.e = mkConst(a);
    return v;
}
APInt toAP(const Val& v)
{
    if (v.e)
        return *v.e->c;
    return APInt(v.w, v.c);
}
const Expr* toExpr(const Val& v)
{
    if (v.e)
        return v.e;
    return mkConst(APInt(v.w, v.c));
}
Val fromExpr(const Expr* e)
{
    if (e->op == OConst && e->w <= 64)
        return mkc(e->w, e->c->getZExtValue());
    Val v;
    v.e = e;
    v.w = e->w;
    return v;
}
Val mkSym(const string& name, unsigned w, bool isF, bool ranged, double lo, double hi)
{
    SymInfo s{ name, w, isF, ranged, lo, hi, (int)syms.size() };
    syms.push_back(s);
    return fromExpr(mk(OSym, w, syms.size() - 1));
}
Val mkUndef(unsigned w) { return fromExpr(mk(OUndef, w, 0)); }

// ---------------------------------------------------------------- concrete semantics
static double hostFun1(const string& n, double x, bool& ok)
{
    if (n == "sin") return sin(x);
    if (n == "cos") return cos(x);
    if (n == "tan") return tan(x);
    if (n == "exp") return exp(x);
    if (n == "exp2") return exp2(x);
    if (n == "exp10") return exp10(x);
    if (n == "log") return log(x);
    if (n == "log2") return log2(x);
    if (n == "log10") return log10(x);
    if (n == "log1p") return log1p(x);
    if (n == "expm1") return expm1(x);
    if (n == "asin") return asin(x);
    if (n == "acos") return acos(x);
    if (n == "atan") return atan(x);
    if (n == "sinh") return sinh(x);
    if (n == "cosh") return cosh(x);
    if (n == "tanh") return tanh(x);
    if (n == "asinh") return asinh(x);
    if (n == "acosh") return acosh(x);
    if (n == "atanh") return atanh(x);
    if (n == "cbrt") return cbrt(x);
    if (n == "tgamma") return tgamma(x);
    if (n == "lgamma") return lgamma(x);
    if (n == "erf") return erf(x);
    ok = false;
    return 0;
}
double hostFun(const string& n0, const vector<double>& a, bool f32, bool& ok)
{
    ok = true;
    if (a.size() == 1)
    {
        if (f32)
        {
            float x = a[0];
            if (n0 == "sin") return sinf(x);
            if (n0 == "cos") return cosf(x);
            if (n0 == "tan") return tanf(x);
            if (n0 == "exp") return expf(x);
            if (n0 == "exp2") return exp2f(x);
            if (n0 == "log") return logf(x);
            if (n0 == "log2") return log2f(x);
            if (n0 == "log10") return log10f(x);
            if (n0 == "sinh") return sinhf(x);
            if (n0 == "cosh") return coshf(x);
            if (n0 == "tanh") return tanhf(x);
            if (n0 == "asin") return asinf(x);
            if (n0 == "acos") return acosf(x);
            if (n0 == "atan") return atanf(x);
            if (n0 == "cbrt") return cbrtf(x);
        }
        return hostFun1(n0, a[0], ok);
    }
    if (a.size() == 2)
    {
        if (n0 == "pow") return f32 ? powf(a[0], a[1]) : pow(a[0], a[1]);
        if (n0 == "atan2") return f32 ? atan2f(a[0], a[1]) : atan2(a[0], a[1]);
        if (n0 == "hypot") return f32 ? hypotf(a[0], a[1]) : hypot(a[0], a[1]);
        if (n0 == "ldexp") return ldexp(a[0], (int)a[1]);
        if (n0 == "fmod") return f32 ? fmodf(a[0], a[1]) : fmod(a[0], a[1]);
    }
    ok = false;
    return 0;
}

template <typename F>
static F rnd(unsigned mode, F x)
{
    switch (mode)
    {
    case RFloor: return std::floor(x);
    case RCeil: return std::ceil(x);
    case RTrunc: return std::trunc(x);
    case RNearInt: return std::nearbyint(x);
    default: return std::round(x);
    }
}
template <typename F>
static bool cmpK(unsigned kind, F a, F b)
{
    switch (kind)
    {
    case 0: return a == b;
    case 1: return a < b;
    case 2: return a <= b;
    default: return std::isnan(a) || std::isnan(b);
    }
}
// x86 semantics for out-of-range conversion: integer indefinite
static u64 fptosi_c(double x, unsigned w)
{
    unsigned cw = w <= 32 ? 32 : 64;
    i64 r;
    if (cw == 32)
        r = (x > -2147483649.0 && x < 2147483648.0) ? (i64)(int32_t)x : (i64)INT32_MIN;
    else
        r = (x >= -9223372036854775808.0 && x < 9223372036854775808.0) ? (i64)x : INT64_MIN;
    return (u64)r & maskw(w);
}
static u64 fptoui_c(double x, unsigned w)
{
    if (w <= 32)
    {
        i64 r = (x >= -9223372036854775808.0 && x < 9223372036854775808.0) ? (i64)x : INT64_MIN;
        return (u64)r & maskw(w);
    }
    if (x >= 9223372036854775808.0)
        return x < 18446744073709551616.0 ? ((u64)(i64)(x - 9223372036854775808.0)) ^ 0x8000000000000000ull
                                          : ~0ull;
    return (x > -9223372036854775809.0) ? (u64)(i64)x : 0x8000000000000000ull;
}

static u64 fcvt_c(Op op, u64 a, unsigned aw, unsigned w)
{
    switch (op)
    {
    case OFPToSI: return fptosi_c(aw == 32 ? bf32(a) : bf64(a), w);
    case OFPToUI: return fptoui_c(aw == 32 ? bf32(a) : bf64(a), w);
    case OSIToFP:
    {
        i64 s = aw == 64 ? (i64)a : ((i64)(a << (64 - aw)) >> (64 - aw));
        return w == 32 ? fb32((float)s) : fb64((double)s);
    }
    case OUIToFP: return w == 32 ? fb32((float)a) : fb64((double)a);
    case OFPExt: return fb64((double)bf32(a));
    case OFPTrunc: return fb32((float)bf64(a));
    default: abort();
    }
}
static u64 fbin_c(Op op, unsigned w, u64 a, u64 b)
{
    if (w == 32)
    {
        float x = bf32(a), y = bf32(b);
        volatile float r;
        switch (op)
        {
        case OFAdd: case OXAddR: r = x + y; break;
        case OFSub: r = x - y; break;
        case OFMul: case OXMulR: r = x * y; break;
        case OFDiv: r = x / y; break;
        default: r = fmodf(x, y); break;
        }
        return fb32(r);
    }
    double x = bf64(a), y = bf64(b);
    volatile double r;
    switch (op)
    {
    case OFAdd: case OXAddR: r = x + y; break;
    case OFSub: r = x - y; break;
    case OFMul: case OXMulR: r = x * y; break;
    case OFDiv: r = x / y; break;
    default: r = fmod(x, y); break;
    }
    return fb64(r);
}

static APInt applyOp(const Expr* e, const APInt* a)
{
    unsigned w  = e->w;
    unsigned aw = e->nk ? e->k[0]->w : 0;
    auto B      = [](bool b) { return APInt(1, b); };
    switch (e->op)
    {
    case OAdd: return a[0] + a[1];
    case OSub: return a[0] - a[1];
    case OMul: return a[0] * a[1];
    case OUDiv: return a[1] == 0 ? APInt::getAllOnes(w) : a[0].udiv(a[1]);
    case OSDiv: return a[1] == 0 ? (a[0].isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a[0].sdiv(a[1]);
    case OURem: return a[1] == 0 ? a[0] : a[0].urem(a[1]);
    case OSRem: return a[1] == 0 ? a[0] : a[0].srem(a[1]);
    case OAnd: return a[0] & a[1];
    case OOr: return a[0] | a[1];
    case OXor: return a[0] ^ a[1];
    case OShl: return a[1].uge(w) ? APInt(w, 0) : a[0].shl(a[1]);
    case OLShr: return a[1].uge(w) ? APInt(w, 0) : a[0].lshr(a[1]);
    case OAShr: return a[1].uge(w) ? a[0].ashr(w - 1) : a[0].ashr(a[1]);
    case OEq: return B(a[0] == a[1]);
    case OUlt: return B(a[0].ult(a[1]));
    case OUle: return B(a[0].ule(a[1]));
    case OSlt: return B(a[0].slt(a[1]));
    case OSle: return B(a[0].sle(a[1]));
    case OIte: return a[0].getBoolValue() ? a[1] : a[2];
    case OConcat: return a[0].concat(a[1]);
    case OExtract: return a[0].extractBits(w, e->aux);
    case OZExt: return a[0].zext(w);
    case OSExt: return a[0].sext(w);
    case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: case OXAddR: case OXMulR:
        return APInt(w, fbin_c(e->op, w, a[0].getZExtValue(), a[1].getZExtValue()));
    case OFNeg: return a[0] ^ APInt::getSignMask(w);
    case OFAbs: return a[0] & APInt::getSignedMaxValue(w);
    case OFSqrt:
        return w == 32 ? APInt(32, fb32(sqrtf(bf32(a[0].getZExtValue()))))
                       : APInt(64, fb64(sqrt(bf64(a[0].getZExtValue()))));
    case OFma:
        return w == 32 ? APInt(32, fb32(fmaf(bf32(a[0].getZExtValue()), bf32(a[1].getZExtValue()),
                                             bf32(a[2].getZExtValue()))))
                       : APInt(64, fb64(fma(bf64(a[0].getZExtValue()), bf64(a[1].getZExtValue()),
                                            bf64(a[2].getZExtValue()))));
    case OFCmp:
        return aw == 32 ? B(cmpK(e->aux, bf32(a[0].getZExtValue()), bf32(a[1].getZExtValue())))
                        : B(cmpK(e->aux, bf64(a[0].getZExtValue()), bf64(a[1].getZExtValue())));
    case OFRound:
        return w == 32 ? APInt(32, fb32(rnd(e->aux, bf32(a[0].getZExtValue()))))
                       : APInt(64, fb64(rnd(e->aux, bf64(a[0].getZExtValue()))));
    case OFPToSI: case OFPToUI: case OSIToFP: case OUIToFP: case OFPExt: case OFPTrunc:
        return APInt(w, fcvt_c(e->op, a[0].getZExtValue(), aw, w));
    case OFun:
    {
        vector<double> v;
        for (int i = 0; i < e->nk; i++)
            v.push_back(e->k[i]->w == 32 ? bf32(a[i].getZExtValue()) : bf64(a[i].getZExtValue()));
        bool ok;
        double r = hostFun(funNames[e->aux], v, w == 32, ok);
        return w == 32 ? APInt(32, fb32(r)) : APInt(64, fb64(r));
    }
    default: abort();
    }
}
APInt Evaluator::eval(const Expr* e0)
{
    // iterative post-order
    vector<const Expr*> st{ e0 };
    while (!st.empty())
    {
        const Expr* e = st.back();
        if (memo.count(e))
        {
            st.pop_back();
            continue;
        }
        if (e->op == OConst)
        {
            memo.emplace(e, *e->c);
            st.pop_back();
            continue;
        }
        if (e->op == OSym)
        {
            auto it = m.find(e->aux);
            memo.emplace(e, it == m.end() ? symDefault(e->aux) : it->second);
            st.pop_back();
            continue;
        }
        if (e->op == OUndef)
        {
            memo.emplace(e, APInt(e->w, 0));
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < e->nk; i++)
            if (!memo.count(e->k[i]))
            {
                st.push_back(e->k[i]);
                ready = false;
            }
        if (!ready)
            continue;
        APInt a[3];
        for (int i = 0; i < e->nk; i++)
            a[i] = memo.find(e->k[i])->second;
        memo.emplace(e, applyOp(e, a));
        st.pop_back();
    }
    return memo.find(e0)->second;
}
static unordered_map<const Expr*, vector<u32>> symMemo;
const vector<u32>& symsOf(const Expr* e0)
{
    vector<const Expr*> st{ e0 };
    while (!st.empty())
    {
        const Expr* e = st.back();
        if (symMemo.count(e))
        {
            st.pop_back();
            continue;
        }
        bool ready = true;
        for (int i = 0; i < e->nk; i++)
            if (!symMemo.count(e->k[i]))
            {
                st.push_back(e->k[i]);
                ready = false;
            }
        if (!ready)
            continue;
        vector<u32> r;
        if (e->op == OSym)
            r.push_back(e->aux);
        else if (e->op == OUndef)
            r.push_back(~0u);
        for (int i = 0; i < e->nk; i++)
        {
            auto& s = symMemo[e->k[i]];
            vector<u32> t;
            set_union(r.begin(), r.end(), s.begin(), s.end(), back_inserter(t));
            r.swap(t);
        }
        symMemo.emplace(e, move(r));
        st.pop_back();
    }
    return symMemo[e0];
}

// ---------------------------------------------------------------- construction with simplification
static bool isCV(const Val& v, u64 c) { return v.isC() && v.w <= 64 && v.c == (c & maskw(v.w)); }
static bool isZero(const Val& v) { return v.isC() && (v.e ? v.e->c->isZero() : v.c == 0); }
static bool isOnes(const Val& v) { return v.isC() && (v.e ? v.e->c->isAllOnes() : v.c == maskw(v.w)); }
static bool isSignMask(const Val& v)
{
    return v.isC() && !v.e && (v.w == 32 || v.w == 64) && v.c == (1ull << (v.w - 1));
}
static bool isAbsMask(const Val& v)
{
    return v.isC() && !v.e && (v.w == 32 || v.w == 64) && v.c == maskw(v.w - 1);
}
static i64 sx(u64 c, unsigned w) { return w == 64 ? (i64)c : ((i64)(c << (64 - w)) >> (64 - w)); }

// is e of the form sext(b) (b 1 bit) or xor(sext b, ~0)?  returns b (possibly negated)
static bool asMask(const Val& v, Val& b)
{
    if (!v.e)
        return false;
    if (v.e->op == OSExt && v.e->k[0]->w == 1)
    {
        b = fromExpr(v.e->k[0]);
        return true;
    }
    if (v.e->op == OIte && v.e->k[1]->op == OConst && v.e->k[2]->op == OConst)
    {
        if (v.e->k[1]->c->isAllOnes() && v.e->k[2]->c->isZero())
        {
            b = fromExpr(v.e->k[0]);
            return true;
        }
        if (v.e->k[2]->c->isAllOnes() && v.e->k[1]->c->isZero())
        {
            b = vNot(fromExpr(v.e->k[0]));
            return true;
        }
    }
    return false;
}
static bool isOneBitNot(const Expr* e) { return e->op == OXor && e->w == 1 && e->k[1]->op == OConst; }
Val vNot(const Val& a) { return vBin(OXor, a, mkc(1, 1)); }

Val vBin(Op op, const Val& a0, const Val& b0)
{
    unsigned w  = a0.w;
    unsigned rw = (op >= OEq && op <= OSle) ? 1 : w;
    if (!a0.e && !b0.e)
    {
        u64 a = a0.c, b = b0.c;
        switch (op)
        {
        case OAdd: return mkc(w, a + b);
        case OSub: return mkc(w, a - b);
        case OMul: return mkc(w, a * b);
        case OUDiv: return mkc(w, b ? a / b : ~0ull);
        case OURem: return mkc(w, b ? a % b : a);
        case OAnd: return mkc(w, a & b);
        case OOr: return mkc(w, a | b);
        case OXor: return mkc(w, a ^ b);
        case OShl: return mkc(w, b >= w ? 0 : a << b);
        case OLShr: return mkc(w, b >= w ? 0 : a >> b);
        case OAShr: return mkc(w, (u64)(sx(a, w) >> (b >= w ? w - 1 : b)));
        case OEq: return mkc(1, a == b);
        case OUlt: return mkc(1, a < b);
        case OUle: return mkc(1, a <= b);
        case OSlt: return mkc(1, sx(a, w) < sx(b, w));
        case OSle: return mkc(1, sx(a, w) <= sx(b, w));
        default: break;
        }
    }
    Val a = a0, b = b0;
    if (a.isC() && b.isC())
    {
        Expr t;
        t.op   = op;
        t.w    = rw;
        t.nk   = 2;
        t.aux  = 0;
        const Expr* ea = toExpr(a);
        t.k[0] = ea;
        t.k[1] = toExpr(b);
        APInt args[2] = { toAP(a), toAP(b) };
        return fromAP(applyOp(&t, args));
    }
    bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
    if (comm && a.isC())
        swap(a, b);
    const Expr* ea = a.e; // may be null if const (non-comm)
    switch (op)
    {
    case OAdd:
        if (isZero(b)) return a;
        if (b.isC() && !b.e && ea->op == OAdd && ea->k[1]->op == OConst)
            return vBin(OAdd, fromExpr(ea->k[0]), mkc(w, b.c + ea->k[1]->c->getZExtValue()));
        break;
    case OSub:
        if (isZero(b)) return a;
        if (a.e && a.e == b.e) return fromAP(APInt(w, 0));
        if (b.isC() && !b.e) return vBin(OAdd, a, mkc(w, 0 - b.c));
        break;
    case OMul:
        if (isZero(b)) return b;
        if (isCV(b, 1)) return a;
        break;
    case OUDiv:
        if (isCV(b, 1)) return a;
        break;
    case OSDiv:
        if (isCV(b, 1)) return a;
        break;
    case OAnd:
    {
        if (isZero(b)) return b;
        if (isOnes(b)) return a;
        if (a.e == b.e) return a;
        if (w == 1 && a.e && b.e)
        {
            if (isOneBitNot(a.e) && a.e->k[0] == b.e) return mkc(1, 0);
            if (isOneBitNot(b.e) && b.e->k[0] == a.e) return mkc(1, 0);
        }
        Val m;
        if (w > 1 && asMask(a, m))
            return vIte(m, b, fromAP(APInt(w, 0)));
        if (w > 1 && asMask(b, m))
            return vIte(m, a, fromAP(APInt(w, 0)));
        if (isAbsMask(b))
        {
            if (ea->op == OFNeg || ea->op == OFAbs)
                ea = ea->k[0];
            return fromExpr(mk(OFAbs, w, 0, ea));
        }
        if (b.isC() && !b.e && ea->op == OAnd && ea->k[1]->op == OConst)
            return vBin(OAnd, fromExpr(ea->k[0]), mkc(w, b.c & ea->k[1]->c->getZExtValue()));
        if (b.isC() && !b.e && w <= 64)
        {
            // low mask: extract
            u64 m2 = b.c;
            if (((m2 + 1) & m2) == 0 && m2 && !isSignMask(b))
            {
                unsigned n = 64 - __builtin_clzll(m2);
                if (n < w && (n == 8 || n == 16 || n == 32 || n == 1))
                    return vZExt(vExtract(a, 0, n), w);
            }
        }
        break;
    }
    case OOr:
        if (isZero(b)) return a;
        if (isOnes(b)) return b;
        if (a.e == b.e) return a;
        if (w == 1 && a.e && b.e)
        {
            if (isOneBitNot(a.e) && a.e->k[0] == b.e) return mkc(1, 1);
            if (isOneBitNot(b.e) && b.e->k[0] == a.e) return mkc(1, 1);
        }
        if (a.e && b.e && a.e->op == OIte && b.e->op == OIte)
        {
            const Expr *x = a.e, *y = b.e;
            auto zero = [](const Expr* q) { return q->op == OConst && q->c->isZero(); };
            if (x->k[0] == y->k[0])
                return vIte(fromExpr(x->k[0]), vBin(OOr, fromExpr(x->k[1]), fromExpr(y->k[1])),
                            vBin(OOr, fromExpr(x->k[2]), fromExpr(y->k[2])));
            Val nx = vNot(fromExpr(x->k[0]));
            if (nx.e == y->k[0] && (zero(x->k[2]) || zero(x->k[1])))
                return vIte(fromExpr(x->k[0]), vBin(OOr, fromExpr(x->k[1]), fromExpr(y->k[2])),
                            vBin(OOr, fromExpr(x->k[2]), fromExpr(y->k[1])));
        }
        {
            // byte assembly:  zext(a) | (zext(b) << n)  with disjoint bits -> concat
            auto shape = [&](const Val& v, unsigned& lo, unsigned& n, Val& inner) -> bool
            {
                if (!v.e)
                    return false;
                const Expr* q = v.e;
                if (q->op == OZExt)
                {
                    lo    = 0;
                    n     = q->k[0]->w;
                    inner = fromExpr(q->k[0]);
                    return true;
                }
                if (q->op == OConcat && q->k[1]->op == OConst && q->k[1]->c->isZero())
                {
                    // concat(x, 0): x may itself be zext
                    lo            = q->k[1]->w;
                    const Expr* h = q->k[0];
                    if (h->op == OZExt)
                        h = h->k[0];
                    n     = h->w;
                    inner = fromExpr(h);
                    return true;
                }
                return false;
            };
            unsigned l1, n1, l2, n2;
            Val i1, i2;
            if (shape(a, l1, n1, i1) && shape(b, l2, n2, i2))
            {
                if (l1 > l2)
                {
                    swap(l1, l2);
                    swap(n1, n2);
                    swap(i1, i2);
                }
                if (l1 + n1 <= l2)
                {
                    Val lowpart = i1;
                    if (l1)
                        lowpart = vConcat(lowpart, fromAP(APInt(l1, 0)));
                    if (l1 + n1 < l2)
                        lowpart = vZExt(lowpart, l2);
                    Val r = vConcat(i2, lowpart);
                    return r.w < w ? vZExt(r, w) : r;
                }
            }
        }
        if (isSignMask(b))
            return vFUn(OFNeg, vFUn(OFAbs, a));
        break;
    case OXor:
        if (isZero(b)) return a;
        if (a.e == b.e) return fromAP(APInt(w, 0));
        if (b.isC() && ea->op == OXor && ea->k[1]->op == OConst)
            return vBin(OXor, fromExpr(ea->k[0]), fromAP(*ea->k[1]->c ^ toAP(b)));
        if (isSignMask(b))
            return vFUn(OFNeg, a);
        if (isOnes(b))
        {
            Val m;
            if (w > 1 && asMask(a, m))
                return vSExt(vNot(m), w);
        }
        if (b.e && a.e && w > 1 && a.e->op == OIte && b.e->op == OIte && a.e->k[0] == b.e->k[0])
            return vIte(fromExpr(a.e->k[0]), vBin(OXor, fromExpr(a.e->k[1]), fromExpr(b.e->k[1])),
                        vBin(OXor, fromExpr(a.e->k[2]), fromExpr(b.e->k[2])));
        break;
    case OShl:
        if (isZero(b)) return a;
        if (isZero(a)) return a;
        if (b.isC() && !b.e)
        {
            if (b.c >= w) return fromAP(APInt(w, 0));
            return vConcat(vExtract(a, 0, w - b.c), fromAP(APInt(b.c, 0)));
        }
        break;
    case OLShr:
        if (isZero(b)) return a;
        if (isZero(a)) return a;
        if (b.isC() && !b.e)
        {
            if (b.c >= w) return fromAP(APInt(w, 0));
            return vZExt(vExtract(a, b.c, w - b.c), w);
        }
        break;
    case OAShr:
        if (isZero(b)) return a;
        if (isZero(a)) return a;
        if (b.isC() && !b.e)
        {
            unsigned s = b.c >= w ? w - 1 : b.c;
            return vSExt(vExtract(a, s, w - s), w);
        }
        break;
    case OEq:
        if (a.e == b.e) return mkc(1, 1);
        if (w == 1)
        {
            if (isCV(b, 1)) return a;
            if (isCV(b, 0)) return vNot(a);
        }
        if (b.isC())
        {
            if (ea->op == OIte && ea->k[1]->op == OConst && ea->k[2]->op == OConst)
            {
                bool x = *ea->k[1]->c == toAP(b), y = *ea->k[2]->c == toAP(b);
                Val cnd = fromExpr(ea->k[0]);
                if (x && y) return mkc(1, 1);
                if (x) return cnd;
                if (y) return vNot(cnd);
                return mkc(1, 0);
            }
            if (ea->op == OZExt)
            {
                APInt bb = toAP(b);
                unsigned iw = ea->k[0]->w;
                if (bb.getActiveBits() > iw) return mkc(1, 0);
                return vEq(fromExpr(ea->k[0]), fromAP(bb.trunc(iw)));
            }
            if (ea->op == OSExt)
            {
                APInt bb = toAP(b);
                unsigned iw = ea->k[0]->w;
                APInt t = bb.trunc(iw);
                if (t.sext(w) != bb) return mkc(1, 0);
                return vEq(fromExpr(ea->k[0]), fromAP(t));
            }
            if (ea->op == OConcat)
            {
                APInt bb = toAP(b);
                unsigned lw = ea->k[1]->w;
                return vAnd1(vEq(fromExpr(ea->k[0]), fromAP(bb.extractBits(w - lw, lw))),
                             vEq(fromExpr(ea->k[1]), fromAP(bb.trunc(lw))));
            }
            if (ea->op == OAdd && ea->k[1]->op == OConst)
                return vEq(fromExpr(ea->k[0]), fromAP(toAP(b) - *ea->k[1]->c));
            if (ea->op == OXor && ea->k[1]->op == OConst)
                return vEq(fromExpr(ea->k[0]), fromAP(toAP(b) ^ *ea->k[1]->c));
        }
        break;
    case OUlt:
        if (isZero(b)) return mkc(1, 0);
        if (a.e && a.e == b.e) return mkc(1, 0);
        if (isCV(b, 1)) return vEq(a, mkc(w, 0));
        if (b.isC() && ea && ea->op == OZExt)
        {
            APInt bb = toAP(b);
            if (bb.getActiveBits() > ea->k[0]->w) return mkc(1, 1);
            return vBin(OUlt, fromExpr(ea->k[0]), fromAP(bb.trunc(ea->k[0]->w)));
        }
        if (a.isC() && b.e->op == OZExt)
        {
            APInt aa = toAP(a);
            if (aa.getActiveBits() > b.e->k[0]->w) return mkc(1, 0);
            return vBin(OUlt, fromAP(aa.trunc(b.e->k[0]->w)), fromExpr(b.e->k[0]));
        }
        break;
    case OUle:
        // a <= b  ==  !(b < a)
        return vNot(vBin(OUlt, b, a));
    case OSlt:
        if (a.e && a.e == b.e) return mkc(1, 0);
        if (b.isC() && ea && ea->op == OZExt)
        {
            APInt bb = toAP(b);
            if (bb.isNegative()) return mkc(1, 0);
            return vBin(OUlt, a, b);
        }
        if (a.isC() && b.e->op == OZExt)
        {
            APInt aa = toAP(a);
            if (aa.isNegative()) return mkc(1, 1);
            return vBin(OUlt, a, b);
        }
        break;
    case OSle: return vNot(vBin(OSlt, b, a));
    default: break;
    }
    // distribute comparison/ops over ite with two constants when other side constant (keeps tables small)
    return fromExpr(mk(op, rw, 0, toExpr(a), toExpr(b)));
}
Val vIte(const Val& c, const Val& a, const Val& b)
{
    if (c.isC())
        return c.c ? a : b;
    if (a.e ? a.e == b.e : (!b.e && a.c == b.c))
        return a;
    if (isOneBitNot(c.e))
        return vIte(fromExpr(c.e->k[0]), b, a);
    if (a.w == 1)
    {
        if (a.isC())
            return a.c ? vOr1(c, b) : vAnd1(vNot(c), b);
        if (b.isC())
            return b.c ? vOr1(vNot(c), a) : vAnd1(c, a);
    }
    if (a.e && a.e->op == OIte && a.e->k[0] == c.e)
        return vIte(c, fromExpr(a.e->k[1]), b);
    if (b.e && b.e->op == OIte && b.e->k[0] == c.e)
        return vIte(c, a, fromExpr(b.e->k[2]));
    return fromExpr(mk(OIte, a.w, 0, c.e, toExpr(a), toExpr(b)));
}
Val vExtract(const Val& a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a.w)
        return a;
    if (!a.e)
        return mkc(w, a.c >> lo);
    const Expr* e = a.e;
    switch (e->op)
    {
    case OConst: return fromAP(e->c->extractBits(w, lo));
    case OUndef: return mkUndef(w);
    case OExtract: return vExtract(fromExpr(e->k[0]), lo + e->aux, w);
    case OConcat:
    {
        unsigned lw = e->k[1]->w;
        if (lo + w <= lw) return vExtract(fromExpr(e->k[1]), lo, w);
        if (lo >= lw) return vExtract(fromExpr(e->k[0]), lo - lw, w);
        return vConcat(vExtract(fromExpr(e->k[0]), 0, lo + w - lw), vExtract(fromExpr(e->k[1]), lo, lw - lo));
    }
    case OZExt:
    {
        unsigned iw = e->k[0]->w;
        if (lo >= iw) return fromAP(APInt(w, 0));
        if (lo + w <= iw) return vExtract(fromExpr(e->k[0]), lo, w);
        return vZExt(vExtract(fromExpr(e->k[0]), lo, iw - lo), w);
    }
    case OSExt:
    {
        unsigned iw = e->k[0]->w;
        if (lo + w <= iw) return vExtract(fromExpr(e->k[0]), lo, w);
        if (lo < iw) return vSExt(vExtract(fromExpr(e->k[0]), lo, iw - lo), w);
        return vSExt(vExtract(fromExpr(e->k[0]), iw - 1, 1), w);
    }
    case OIte:
        if (e->k[1]->op == OConst || e->k[2]->op == OConst || w == 1 || (e->k[1]->op == OConcat && e->k[2]->op == OConcat))
            return vIte(fromExpr(e->k[0]), vExtract(fromExpr(e->k[1]), lo, w),
                        vExtract(fromExpr(e->k[2]), lo, w));
        break;
    case OAnd: case OOr: case OXor:
        if (e->k[1]->op == OConst)
            return vBin(e->op, vExtract(fromExpr(e->k[0]), lo, w), vExtract(fromExpr(e->k[1]), lo, w));
        for (int i = 0; i < 2; i++) // one side constant in these bits
            if (e->k[i]->op == OZExt || e->k[i]->op == OConcat || (e->k[i]->op == OAnd && e->k[i]->k[1]->op == OConst))
            {
                Val x = vExtract(fromExpr(e->k[i]), lo, w);
                if (x.isC()) return vBin(e->op, vExtract(fromExpr(e->k[1 - i]), lo, w), x);
            }
        break;
    case OFNeg:
        if (lo + w < e->w) return vExtract(fromExpr(e->k[0]), lo, w);
        return vBin(OXor, vExtract(fromExpr(e->k[0]), lo, w), fromAP(APInt::getSignMask(w)));
    case OFAbs:
        if (lo + w < e->w) return vExtract(fromExpr(e->k[0]), lo, w);
        return vBin(OAnd, vExtract(fromExpr(e->k[0]), lo, w), fromAP(APInt::getSignedMaxValue(w)));
    case OAdd: case OSub: case OMul:
        if (lo == 0 && w >= 8)
            return vBin(e->op, vExtract(fromExpr(e->k[0]), 0, w), vExtract(fromExpr(e->k[1]), 0, w));
        break;
    default: break;
    }
    return fromExpr(mk(OExtract, w, lo, e));
}
Val vConcat(const Val& hi, const Val& lo)
{
    unsigned w = hi.w + lo.w;
    if (lo.w == 0) return hi;
    if (hi.w == 0) return lo;
    if (hi.isC() && lo.isC())
    {
        if (w <= 64)
            return mkc(w, (hi.c << lo.w) | lo.c);
        return fromAP(toAP(hi).concat(toAP(lo)));
    }
    if (hi.e && lo.e)
    {
        if (hi.e->op == OUndef && lo.e->op == OUndef)
            return mkUndef(w);
        if (hi.e->op == OExtract && lo.e->op == OExtract && hi.e->k[0] == lo.e->k[0] &&
            hi.e->aux == lo.e->aux + lo.w)
            return vExtract(fromExpr(lo.e->k[0]), lo.e->aux, w);
        // concat(extract, concat(extract, x))
        if (hi.e->op == OExtract && lo.e->op == OConcat && lo.e->k[0]->op == OExtract &&
            hi.e->k[0] == lo.e->k[0]->k[0] && hi.e->aux == lo.e->k[0]->aux + lo.e->k[0]->w)
            return vConcat(vExtract(fromExpr(hi.e->k[0]), lo.e->k[0]->aux, hi.w + lo.e->k[0]->w),
                           fromExpr(lo.e->k[1]));
        if (hi.e->op == OIte && lo.e->op == OIte && hi.e->k[0] == lo.e->k[0])
            return vIte(fromExpr(hi.e->k[0]), vConcat(fromExpr(hi.e->k[1]), fromExpr(lo.e->k[1])),
                        vConcat(fromExpr(hi.e->k[2]), fromExpr(lo.e->k[2])));
    }
    if (isZero(hi))
        return vZExt(lo, w);
    if (hi.isC() && lo.e && lo.e->op == OConcat && lo.e->k[0]->op == OConst)
        return vConcat(vConcat(hi, fromExpr(lo.e->k[0])), fromExpr(lo.e->k[1]));
    if (lo.isC() && hi.e && hi.e->op == OConcat && hi.e->k[1]->op == OConst)
        return vConcat(fromExpr(hi.e->k[0]), vConcat(fromExpr(hi.e->k[1]), lo));
    return fromExpr(mk(OConcat, w, 0, toExpr(hi), toExpr(lo)));
}
Val vZExt(const Val& a, unsigned w)
{
    if (w == a.w) return a;
    if (a.isC())
        return a.e ? fromAP(a.e->c->zext(w)) : (w <= 64 ? mkc(w, a.c) : fromAP(APInt(a.w, a.c).zext(w)));
    if (a.e->op == OZExt)
        return vZExt(fromExpr(a.e->k[0]), w);
    return fromExpr(mk(OZExt, w, 0, a.e));
}
Val vSExt(const Val& a, unsigned w)
{
    if (w == a.w) return a;
    if (a.isC())
        return fromAP(toAP(a).sext(w));
    if (a.e->op == OSExt)
        return vSExt(fromExpr(a.e->k[0]), w);
    if (a.e->op == OZExt)
        return vZExt(fromExpr(a.e->k[0]), w);
    return fromExpr(mk(OSExt, w, 0, a.e));
}
Val vTrunc(const Val& a, unsigned w) { return vExtract(a, 0, w); }

// ---- values whose sign and exponent bits are constants ----
struct FParts { bool ok = false; bool sgnC = false; u64 sgn = 0; int E = 0; int M = 0; Val mant, sign; };
static FParts parts(const Val& a)
{
    FParts p;
    if (a.w != 32 && a.w != 64) return p;
    if (a.e && a.e->op != OConcat && a.e->op != OOr && a.e->op != OAnd && a.e->op != OXor && a.e->op != OZExt) return p;
    p.M = a.w == 32 ? 23 : 52;
    int eb = a.w - 1 - p.M, bias = (1 << (eb - 1)) - 1;
    Val x = vExtract(a, p.M, eb);
    if (x.e || x.c == 0 || x.c == maskw(eb)) return p;
    p.E    = (int)x.c - bias;
    p.mant = vExtract(a, 0, p.M);
    p.sign = vExtract(a, a.w - 1, 1);
    p.sgnC = !p.sign.e;
    p.sgn  = p.sign.c;
    p.ok   = true;
    return p;
}
static Val magUp(const Val& a, int bit) { return vBin(OAdd, a, mkc(a.w, 1ull << bit)); }
// integer with a known leading one and few enough significant bits
static bool intToF(const Val& v, unsigned w, Val& out)
{
    int M = w == 32 ? 23 : 52, eb = w - 1 - M, bias = (1 << (eb - 1)) - 1;
    int top = -1;
    for (int i = v.w - 1; i >= 0; i--)
    {
        Val b = vExtract(v, i, 1);
        if (b.e) return false;
        if (b.c) { top = i; break; }
    }
    if (top < 0) { out = mkc(w, 0); return true; }
    Val fr;
    if (top > M)
    {
        Val low = vExtract(v, 0, top - M);
        if (low.e || low.c) return false;
        fr = vExtract(v, top - M, M);
    }
    else if (top == 0) fr = mkc(M, 0);
    else if (top == M) fr = vExtract(v, 0, M);
    else fr = vConcat(vExtract(v, 0, top), mkc(M - top, 0));
    out = vConcat(mkc(1 + eb, (u64)(bias + top)), fr);
    return true;
}
Val vFBin(Op op, const Val& a, const Val& b)
{
    if (!a.e && !b.e)
        return mkc(a.w, fbin_c(op, a.w, a.c, b.c));
    u64 one = a.w == 32 ? fb32(1.f) : fb64(1.0);
    if (op == OFMul || op == OXMulR)
    {
        if (isCV(a, one)) return b;
        if (isCV(b, one)) return a;
    }
    if (op == OFDiv && isCV(b, one)) return a;
    if (op == OFAdd && isSignMask(b)) return a;      // x + -0.0
    if (op == OFAdd && isSignMask(a)) return b;
    if (op == OFSub && isZero(b)) return a;          // x - 0.0
    if ((op == OFAdd || op == OFSub) && a.e && !b.e)
    {
        // integral value stepped by one unit away from zero
        u64 sm = 1ull << (b.w - 1), bc = op == OFSub ? b.c ^ sm : b.c;
        FParts p = parts(a);
        if (p.ok && p.sgnC && (bc & ~sm) == one && ((bc & sm) != 0) == (p.sgn != 0) && p.E >= 0 && p.E < p.M)
        {
            Val low = vExtract(a, 0, p.M - p.E);
            if (!low.e && !low.c) return magUp(a, p.M - p.E);
        }
    }
    const Expr *x = toExpr(a), *y = toExpr(b);
    if ((op == OFAdd || op == OFMul || op == OXAddR || op == OXMulR) && x->id > y->id)
        swap(x, y);
    return fromExpr(mk(op, a.w, 0, x, y));
}
Val vFUn(Op op, const Val& a)
{
    if (!a.e)
    {
        u64 sm = 1ull << (a.w - 1);
        if (op == OFNeg) return mkc(a.w, a.c ^ sm);
        if (op == OFAbs) return mkc(a.w, a.c & ~sm);
        if (op == OFSqrt) return mkc(a.w, a.w == 32 ? fb32(sqrtf(bf32(a.c))) : fb64(sqrt(bf64(a.c))));
    }
    if (op == OFNeg && a.e->op == OFNeg) return fromExpr(a.e->k[0]);
    if ((op == OFNeg || op == OFAbs) && parts(a).ok) return vConcat(op == OFNeg ? vNot(vExtract(a, a.w - 1, 1)) : mkc(1, 0), vExtract(a, 0, a.w - 1));
    if (op == OFAbs && (a.e->op == OFNeg || a.e->op == OFAbs)) return vFUn(OFAbs, fromExpr(a.e->k[0]));
    return fromExpr(mk(op, a.w, 0, a.e));
}
Val vFma(const Val& a, const Val& b, const Val& c)
{
    if (!a.e && !b.e && !c.e)
        return a.w == 32 ? mkc(32, fb32(fmaf(bf32(a.c), bf32(b.c), bf32(c.c))))
                         : mkc(64, fb64(fma(bf64(a.c), bf64(b.c), bf64(c.c))));
    const Expr *x = toExpr(a), *y = toExpr(b);
    if (x->id > y->id)
        swap(x, y);
    return fromExpr(mk(OFma, a.w, 0, x, y, toExpr(c)));
}
Val vFCmp(unsigned kind, const Val& a, const Val& b)
{
    if (!a.e && !b.e)
        return mkc(1, a.w == 32 ? cmpK(kind, bf32(a.c), bf32(b.c)) : cmpK(kind, bf64(a.c), bf64(b.c)));
    {
        FParts p = parts(a), q = parts(b);
        if (p.ok && q.ok && p.sgnC && q.sgnC)
        {
            Val x = vExtract(a, 0, a.w - 1), y = vExtract(b, 0, b.w - 1);
            if (kind == 3) return mkc(1, 0);
            if (p.sgn != q.sgn) return mkc(1, kind != 0 && p.sgn);
            if (kind == 0) return vEq(x, y);
            if (p.E != q.E) return mkc(1, (p.E < q.E) != (p.sgn != 0));
            if (p.sgn) swap(x, y);
            return vBin(kind == 1 ? OUlt : OUle, x, y);
        }
    }
    return fromExpr(mk(OFCmp, 1, kind, toExpr(a), toExpr(b)));
}
Val vFRound(unsigned mode, const Val& a)
{
    if (!a.e)
        return a.w == 32 ? mkc(32, fb32(rnd(mode, bf32(a.c)))) : mkc(64, fb64(rnd(mode, bf64(a.c))));
    FParts p = parts(a);
    if (p.ok && p.E >= p.M) return a;
    if (p.ok && p.E >= 0)
    {
        int k  = p.M - p.E;
        Val fr = vExtract(a, 0, k), t = vConcat(vExtract(a, k, a.w - k), mkc(k, 0));
        Val nz = vNot(vEq(fr, mkc(k, 0))), up = mkc(1, 0);
        Val half = vExtract(a, k - 1, 1);
        if (mode == RFloor) up = vAnd1(nz, p.sign);
        else if (mode == RCeil) up = vAnd1(nz, vNot(p.sign));
        else if (mode == RRoundAway) up = half;
        else if (mode == RNearInt)
        {
            Val odd = k < p.M ? vExtract(a, k, 1) : mkc(1, 1); // E == 0: the hidden bit is the unit
            Val rest = k > 1 ? vNot(vEq(vExtract(a, 0, k - 1), mkc(k - 1, 0))) : mkc(1, 0);
            up = vAnd1(half, vOr1(rest, odd));
        }
        return vIte(up, magUp(t, k), t);
    }
    if (p.ok && p.E < -1 || p.ok && mode <= RTrunc)
    {
        Val z = vConcat(p.sign, mkc(a.w - 1, 0)), o = vConcat(p.sign, mkc(a.w - 1, a.w == 32 ? fb32(1.f) : fb64(1.)));
        if (mode == RFloor) return vIte(p.sign, o, z);
        if (mode == RCeil) return vIte(p.sign, z, o);
        return z;
    }
    return fromExpr(mk(OFRound, a.w, mode, a.e));
}
Val vFCvt(Op op, const Val& a, unsigned w)
{
    if (!a.e)
        return mkc(w, fcvt_c(op, a.c, a.w, w));
    if (op == OFPTrunc && a.e->op == OFPExt)
        return fromExpr(a.e->k[0]);
    if (op == OFPToSI || op == OFPToUI)
    {
        FParts p = parts(a);
        if (p.ok && p.E < 0) return mkc(w, 0);
        if (p.ok && (op == OFPToSI ? p.E + 2 <= (int)w : p.E + 1 <= (int)w && p.sgnC && !p.sgn))
        {
            Val v = vConcat(mkc(1, 1), p.mant);
            if (p.E < p.M) v = vExtract(v, p.M - p.E, p.E + 1);
            else if (p.E > p.M) v = vConcat(v, mkc(p.E - p.M, 0));
            v = vZExt(v, w);
            return op == OFPToUI ? v : vIte(p.sign, vBin(OSub, mkc(w, 0), v), v);
        }
    }
    if ((op == OSIToFP || op == OUIToFP) && (w == 32 || w == 64))
    {
        Val r;
        Val sb = vExtract(a, a.w - 1, 1);
        if ((op == OUIToFP || (!sb.e && !sb.c)) && intToF(a, w, r)) return r;
        if (op == OSIToFP && a.e->op == OSub && a.e->k[0]->op == OConst && a.e->k[0]->c->isZero())
        {
            Val u = fromExpr(a.e->k[1]);
            Val s = vExtract(u, u.w - 1, 1);
            if (!s.e && !s.c && intToF(u, w, r)) return vFUn(OFNeg, r);
        }
        if (op == OSIToFP && a.e->op == OIte)
        {
            Val x = vFCvt(op, fromExpr(a.e->k[1]), w), y = vFCvt(op, fromExpr(a.e->k[2]), w);
            if ((!x.e || x.e->op != OSIToFP) && (!y.e || y.e->op != OSIToFP)) return vIte(fromExpr(a.e->k[0]), x, y);
        }
    }
    return fromExpr(mk(op, w, 0, a.e));
}
Val vFun(const string& name, const vector<Val>& args, unsigned w)
{
    bool allc = true;
    for (auto& a : args)
        allc &= a.isC();
    if (allc)
    {
        vector<double> v;
        for (auto& a : args)
            v.push_back(a.w == 32 && w == 32 ? bf32(a.c) : (a.w == 64 ? bf64(a.c) : (double)(int)a.c));
        bool ok;
        double r = hostFun(name, v, w == 32, ok);
        if (ok)
            return w == 32 ? mkc(32, fb32(r)) : mkc(64, fb64(r));
    }
    return fromExpr(mk(OFun, w, funId(name), toExpr(args[0]), args.size() > 1 ? toExpr(args[1]) : nullptr,
                       args.size() > 2 ? toExpr(args[2]) : nullptr));
}
string exprStr(const Expr* e, int depth)
{
    if (e->op == OConst)
    {
        llvm::SmallString<40> s;
        e->c->toString(s, 16, false);
        return "0x" + string(s.str());
    }
    if (e->op == OSym)
        return syms[e->aux].name;
    if (depth == 0)
        return "#" + to_string(e->id);
    string r = string("(") + opName[e->op] + (e->op == OFun ? ":" + funNames[e->aux] : e->aux ? ":" + to_string(e->aux) : "") + "/" + to_string(e->w);
    for (int i = 0; i < e->nk; i++)
        r += " " + exprStr(e->k[i], depth - 1);
    return r + ")";
}
