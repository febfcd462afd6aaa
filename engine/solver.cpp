#include "solver.h"
#include <algorithm>
#include <cmath>
#include <set>
#include <z3++.h>
using namespace std;
SolverStats SS;
unsigned queryTimeoutMs = 20000;
static z3::context& C()
{
    static z3::context* c = new z3::context();
    return *c;
}
z3::context& z3ctx() { return C(); }
typedef z3::expr ZE;
struct Trans
{
    bool uf;
    unordered_map<const Expr*, ZE> bv, fp;
    bool usedUF = false;
    ZE rm() { return ZE(C(), Z3_mk_fpa_rne(C())); }
    z3::sort fs(unsigned w) { return w == 32 ? C().fpa_sort<32>() : C().fpa_sort<64>(); }
    ZE b2v(const ZE& b) { return z3::ite(b, C().bv_val(1, 1), C().bv_val(0, 1)); }
    ZE BVof(const Expr* e)
    { // as BV even for 1-bit
        ZE r = bv.at(e);
        return e->w == 1 ? b2v(r) : r;
    }
    ZE v2r(const ZE& v, unsigned w) { return w == 1 ? v == C().bv_val(1, 1) : v; }
    ZE constant(const Expr* e)
    {
        if (e->w == 1)
            return C().bool_val(e->c->getBoolValue());
        if (e->w <= 64)
            return C().bv_val((uint64_t)e->c->getZExtValue(), e->w);
        llvm::SmallString<64> s;
        e->c->toString(s, 10, false);
        return C().bv_val(s.c_str(), e->w);
    }
    ZE FPof(const Expr* e)
    {
        auto it = fp.find(e);
        if (it != fp.end())
            return it->second;
        ZE r(C());
        auto K = [&](int i) { return FPof(e->k[i]); };
        if (!uf)
            switch (e->op)
            {
            case OFAdd: r = ZE(C(), Z3_mk_fpa_add(C(), rm(), K(0), K(1))); break;
            case OFSub: r = ZE(C(), Z3_mk_fpa_sub(C(), rm(), K(0), K(1))); break;
            case OFMul: r = ZE(C(), Z3_mk_fpa_mul(C(), rm(), K(0), K(1))); break;
            case OFDiv: r = ZE(C(), Z3_mk_fpa_div(C(), rm(), K(0), K(1))); break;
            case OFSqrt: r = ZE(C(), Z3_mk_fpa_sqrt(C(), rm(), K(0))); break;
            case OFma: r = ZE(C(), Z3_mk_fpa_fma(C(), rm(), K(0), K(1), K(2))); break;
            default: break;
            }
        if (!Z3_ast(r))
            switch (e->op)
            {
            case OFRound:
            {
                Z3_ast m = e->aux == RFloor  ? Z3_mk_fpa_rtn(C())
                           : e->aux == RCeil ? Z3_mk_fpa_rtp(C())
                           : e->aux == RTrunc ? Z3_mk_fpa_rtz(C())
                           : e->aux == RNearInt ? Z3_mk_fpa_rne(C())
                                                : Z3_mk_fpa_rna(C());
                ZE mm(C(), m);
                r = ZE(C(), Z3_mk_fpa_round_to_integral(C(), mm, K(0)));
                break;
            }
            case OSIToFP: r = ZE(C(), Z3_mk_fpa_to_fp_signed(C(), rm(), BVof(e->k[0]), fs(e->w))); break;
            case OUIToFP: r = ZE(C(), Z3_mk_fpa_to_fp_unsigned(C(), rm(), BVof(e->k[0]), fs(e->w))); break;
            case OFPExt: case OFPTrunc: r = ZE(C(), Z3_mk_fpa_to_fp_float(C(), rm(), K(0), fs(e->w))); break;
            case OFNeg: r = ZE(C(), Z3_mk_fpa_neg(C(), K(0))); break;
            case OFAbs: r = ZE(C(), Z3_mk_fpa_abs(C(), K(0))); break;
            default: r = ZE(C(), Z3_mk_fpa_to_fp_bv(C(), BVof(e), fs(e->w)));
            }
        fp.emplace(e, r);
        return r;
    }
    ZE isnan(const ZE& b, unsigned w)
    {
        ZE m   = C().bv_val((uint64_t)(w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull), w);
        ZE inf = C().bv_val((uint64_t)(w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull), w);
        return z3::ugt(b & m, inf);
    }
    ZE fcmp(unsigned kind, const ZE& a, const ZE& b, unsigned w)
    {
        ZE un = isnan(a, w) || isnan(b, w);
        if (kind == 3)
            return un;
        ZE m     = C().bv_val((uint64_t)(w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull), w);
        ZE z     = C().bv_val((uint64_t)0, w);
        ZE bothz = ((a | b) & m) == z;
        if (kind == 0)
            return !un && (a == b || bothz);
        ZE sa = z3::slt(a, z), sb = z3::slt(b, z);
        ZE lt = z3::ite(sa, z3::ite(sb, z3::ugt(a, b), !bothz), z3::ite(sb, C().bool_val(false), z3::ult(a, b)));
        if (kind == 1)
            return !un && lt;
        return !un && (lt || a == b || bothz);
    }
    ZE ufun(const Expr* e)
    {
        usedUF      = true;
        string name = string(opName[e->op]) + "_" + to_string(e->aux) + "_" + to_string(e->w);
        z3::sort_vector dom(C());
        z3::expr_vector args(C());
        for (int i = 0; i < e->nk; i++)
        {
            name += "_" + to_string(e->k[i]->w);
            dom.push_back(C().bv_sort(e->k[i]->w));
            args.push_back(BVof(e->k[i]));
        }
        return C().function(name.c_str(), dom, C().bv_sort(e->w))(args);
    }
    ZE one(const Expr* e)
    {
        unsigned w = e->w;
        auto K     = [&](int i) { return bv.at(e->k[i]); };
        auto V     = [&](int i) { return BVof(e->k[i]); };
        switch (e->op)
        {
        case OConst: return constant(e);
        case OSym:
        {
            ZE s = C().bv_const(("s" + to_string(e->aux)).c_str(), w);
            return v2r(s, w);
        }
        case OUndef: return v2r(C().bv_val((uint64_t)0, w), w);
        case OAdd: return v2r(V(0) + V(1), w);
        case OSub: return v2r(V(0) - V(1), w);
        case OMul: return v2r(V(0) * V(1), w);
        case OUDiv: return v2r(z3::udiv(V(0), V(1)), w);
        case OSDiv: return v2r(V(0) / V(1), w);
        case OURem: return v2r(z3::urem(V(0), V(1)), w);
        case OSRem: return v2r(z3::srem(V(0), V(1)), w);
        case OAnd: return w == 1 ? (K(0) && K(1)) : (K(0) & K(1));
        case OOr: return w == 1 ? (K(0) || K(1)) : (K(0) | K(1));
        case OXor: return w == 1 ? (e->k[1]->op == OConst ? (e->k[1]->c->getBoolValue() ? !K(0) : K(0)) : (K(0) != K(1))) : (K(0) ^ K(1));
        case OShl: return v2r(z3::shl(V(0), V(1)), w);
        case OLShr: return v2r(z3::lshr(V(0), V(1)), w);
        case OAShr: return v2r(z3::ashr(V(0), V(1)), w);
        case OEq: return K(0) == K(1);
        case OUlt: return z3::ult(V(0), V(1));
        case OUle: return z3::ule(V(0), V(1));
        case OSlt: return z3::slt(V(0), V(1));
        case OSle: return z3::sle(V(0), V(1));
        case OIte: return z3::ite(K(0), K(1), K(2));
        case OConcat: return z3::concat(V(0), V(1));
        case OExtract: return v2r(V(0).extract(e->aux + w - 1, e->aux), w);
        case OZExt: return z3::zext(V(0), w - e->k[0]->w);
        case OSExt: return z3::sext(V(0), w - e->k[0]->w);
        case OFNeg: return K(0) ^ C().bv_val((uint64_t)1 << (w - 1), w);
        case OFAbs: return K(0) & C().bv_val(((uint64_t)1 << (w - 1)) - 1, w);
        case OFCmp: return fcmp(e->aux, K(0), K(1), e->k[0]->w);
        case OFAdd: case OFSub: case OFMul: case OFDiv: case OFSqrt: case OFma:
            if (uf)
                return ufun(e);
            SS.exactFP++;
            return ZE(C(), Z3_mk_fpa_to_ieee_bv(C(), FPof(e)));
        case OFRem: case OXAddR: case OXMulR: case OFun: return ufun(e);
        case OFRound: case OSIToFP: case OUIToFP: case OFPExt: case OFPTrunc:
            return ZE(C(), Z3_mk_fpa_to_ieee_bv(C(), FPof(e)));
        case OFPToSI: case OFPToUI:
        {
            unsigned fw = e->k[0]->w;
            ZE x        = FPof(e->k[0]);
            z3::sort s  = fs(fw);
            ZE rtz(C(), Z3_mk_fpa_rtz(C()));
            auto num    = [&](double d) { return fw == 32 ? C().fpa_val((float)d) : C().fpa_val(d); };
            if (e->op == OFPToUI && w > 32)
            {
                ZE lo = num(-9223372036854775808.0), mid = num(9223372036854775808.0), hi = num(18446744073709551616.0);
                ZE inS = ZE(C(), Z3_mk_fpa_geq(C(), x, lo)) && ZE(C(), Z3_mk_fpa_lt(C(), x, mid));
                ZE inU = ZE(C(), Z3_mk_fpa_geq(C(), x, mid)) && ZE(C(), Z3_mk_fpa_lt(C(), x, hi));
                return z3::ite(inS, ZE(C(), Z3_mk_fpa_to_sbv(C(), rtz, x, 64)),
                               z3::ite(inU, ZE(C(), Z3_mk_fpa_to_ubv(C(), rtz, x, 64)),
                                       z3::ite(ZE(C(), Z3_mk_fpa_geq(C(), x, hi)), C().bv_val((uint64_t)~0ull, 64),
                                               C().bv_val((uint64_t)1 << 63, 64))));
            }
            unsigned cw = (e->op == OFPToSI && w <= 32) ? 32 : 64;
            ZE in(C());
            if (cw == 32 && fw == 64)
                in = ZE(C(), Z3_mk_fpa_gt(C(), x, num(-2147483649.0))) && ZE(C(), Z3_mk_fpa_lt(C(), x, num(2147483648.0)));
            else if (cw == 32)
                in = ZE(C(), Z3_mk_fpa_geq(C(), x, num(-2147483648.0))) && ZE(C(), Z3_mk_fpa_lt(C(), x, num(2147483648.0)));
            else
                in = ZE(C(), Z3_mk_fpa_geq(C(), x, num(-9223372036854775808.0))) && ZE(C(), Z3_mk_fpa_lt(C(), x, num(9223372036854775808.0)));
            ZE r = z3::ite(in, ZE(C(), Z3_mk_fpa_to_sbv(C(), rtz, x, cw)), C().bv_val((uint64_t)1 << (cw - 1), cw));
            if (w < cw)
                r = r.extract(w - 1, 0);
            return v2r(r, w);
        }
        default: abort();
        }
    }
    ZE tr(const Expr* e0)
    {
        vector<const Expr*> st{ e0 };
        while (!st.empty())
        {
            const Expr* e = st.back();
            if (bv.count(e))
            {
                st.pop_back();
                continue;
            }
            bool ready = true;
            for (int i = 0; i < e->nk; i++)
                if (!bv.count(e->k[i]))
                {
                    st.push_back(e->k[i]);
                    ready = false;
                }
            if (!ready)
                continue;
            bv.emplace(e, one(e));
            st.pop_back();
        }
        return bv.at(e0);
    }
};
static unordered_map<const Expr*, uint8_t> fpMemo; // bit0: contains FP arithmetic; bit1: needs FPA theory (round/convert)
static uint8_t fpKind(const Expr* e0)
{
    vector<const Expr*> st{ e0 };
    while (!st.empty())
    {
        const Expr* e = st.back();
        if (fpMemo.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (int i = 0; i < e->nk; i++)
            if (!fpMemo.count(e->k[i])) { st.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        uint8_t r = 0;
        for (int i = 0; i < e->nk; i++) r |= fpMemo[e->k[i]];
        switch (e->op)
        {
        case OFAdd: case OFSub: case OFMul: case OFDiv: case OFSqrt: case OFma: r |= 1; break;
        case OFRem: case OXAddR: case OXMulR: case OFun: r |= 4; break;
        case OFRound: case OSIToFP: case OUIToFP: case OFPExt: case OFPTrunc: case OFPToSI: case OFPToUI: r |= 2; break;
        default: break;
        }
        fpMemo[e] = r;
        st.pop_back();
    }
    return fpMemo[e0];
}
APInt symDefault(u32 s)
{
    auto& i = syms[s];
    if (i.ranged && !i.isF)
        return APInt(i.w, (u64)(i64)(i.lo <= 0 && i.hi >= 0 ? 0 : i.lo), true);
    if (i.ranged && !(i.lo <= 0 && i.hi >= 0))
        return i.w == 32 ? APInt(32, fb32((float)i.lo)) : APInt(64, fb64(i.lo));
    return APInt(i.w, 0);
}
static Res run(const vector<const Expr*>& cons, bool uf, unsigned tmo, Assign& model, const vector<u32>& sy, bool fpa, bool hasUF)
{
    static Trans* T[2] = { nullptr, nullptr };
    if (T[uf] && T[uf]->bv.size() > 400000)
    {
        delete T[uf];
        T[uf] = nullptr;
    }
    if (!T[uf])
        T[uf] = new Trans{ uf, {}, {} };
    auto t0 = chrono::steady_clock::now();
    Res r   = RUnknown;
    try
    {
        z3::solver s = fpa ? (hasUF ? z3::solver(C()) : z3::tactic(C(), "qffpbv").mk_solver())
                           : (hasUF ? z3::tactic(C(), "qfufbv").mk_solver() : z3::tactic(C(), "qfbv").mk_solver());
        z3::params p(C());
        p.set("timeout", tmo);
        s.set(p);
        for (auto c : cons)
            s.add(T[uf]->tr(c));
        auto q = s.check();
        if (q == z3::unsat)
            r = RUnsat;
        else if (q == z3::sat)
        {
            r           = RSat;
            z3::model m = s.get_model();
            for (u32 x : sy)
            {
                unsigned w = syms[x].w;
                ZE v       = m.eval(C().bv_const(("s" + to_string(x)).c_str(), w), true);
                string ds;
                if (v.is_numeral(ds))
                    model[x] = APInt(w, ds, 10);
                else
                    model[x] = symDefault(x);
            }
        }
    }
    catch (z3::exception& ex)
    {
        fprintf(stderr, "z3 exception: %s\n", ex.msg());
        r = RUnknown;
    }
    double dt = chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    SS.time += dt;
    SS.queries++;
    static const bool dbg = getenv("KSYM_DEBUG") != nullptr;
    if (dbg && dt > 0.5)
    {
        fprintf(stderr, "slow query %.2fs res=%d fpa=%d\n", dt, (int)r, fpa);
        for (auto c : cons) fprintf(stderr, "   %s\n", exprStr(c, 9).c_str());
    }
    return r;
}
static bool holds(const vector<const Expr*>& cons, const Assign& m)
{
    Evaluator ev(m);
    for (auto c : cons)
        if (!ev.truth(c))
            return false;
    return true;
}
static map<vector<u32>, pair<Res, Assign>> qcache;
static u64 rngs = 0x9E3779B97F4A7C15ull;
static u64 rng()
{
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return rngs;
}
Res solve(const vector<const Expr*>& cons0, Assign& model)
{
    vector<const Expr*> cons(cons0);
    sort(cons.begin(), cons.end(), [](const Expr* a, const Expr* b) { return a->id < b->id; });
    cons.erase(unique(cons.begin(), cons.end()), cons.end());
    vector<u32> key;
    for (auto c : cons)
    {
        if (c->op == OConst)
        {
            if (c->c->isZero()) return RUnsat;
            continue;
        }
        key.push_back(c->id);
    }
    auto it = qcache.find(key);
    if (it != qcache.end())
    {
        SS.cacheHits++;
        for (auto& p : it->second.second)
            model[p.first] = p.second;
        return it->second.first;
    }
    set<u32> ss;
    uint8_t k = 0;
    for (auto c : cons)
    {
        for (u32 s : symsOf(c))
            if (s != ~0u)
                ss.insert(s);
        k |= fpKind(c);
    }
    vector<u32> sy(ss.begin(), ss.end());
    Assign m;
    Res r = RUnknown;
    if (k & 5)
    {
        // 1. arithmetic abstracted by uninterpreted functions: unsat is final
        r = run(cons, true, min(queryTimeoutMs, 10000u), m, sy, k & 2, true);
        if (r == RUnsat)
            SS.ufUnsat++;
        else
        {
            // candidate: real semantics decide
            if (r == RSat && holds(cons, m))
                ;
            else
            {
                r = RUnknown;
                for (int i = 0; i < 200 && r == RUnknown; i++)
                {
                    Assign c = m;
                    for (u32 x : sy)
                    {
                        auto& si = syms[x];
                        if (si.isF && (i % 2 == 0 || si.ranged))
                        {
                            double lo = si.ranged ? si.lo : -4, hi = si.ranged ? si.hi : 4;
                            double v = lo + (hi - lo) * ((rng() >> 11) * 0x1p-53);
                            c[x]     = si.w == 32 ? APInt(32, fb32((float)v)) : APInt(64, fb64(v));
                        }
                        else if (i % 4 == 1 && rng() % 2)
                            c[x] = APInt(si.w, rng());
                    }
                    if (holds(cons, c)) { m = c; r = RSat; }
                }
                if (r == RUnknown)
                {
                    r = run(cons, false, queryTimeoutMs, m, sy, true, k & 4);
                    if (r == RSat && !holds(cons, m))
                        r = RUnknown;
                }
            }
        }
    }
    else
    {
        r = run(cons, false, queryTimeoutMs, m, sy, k & 2, false);
        if (r == RSat && !holds(cons, m))
        {
            fprintf(stderr, "ksym: model/evaluator mismatch\n");
            for (auto c : cons) { Evaluator ev(m); if (!ev.truth(c)) fprintf(stderr, "  %s\n", exprStr(c, 8).substr(0, 2000).c_str()); }
            r = RUnknown;
        }
    }
    if (r == RSat) SS.sat++;
    else if (r == RUnsat) SS.unsat++;
    else SS.unknown++;
    if (r != RSat)
        m.clear();
    qcache[key] = { r, m };
    for (auto& p : m)
        model[p.first] = p.second;
    return r;
}

// =====================================================================================
// Real relaxation: every FP value v is represented as p(x) + e, |e| <= err, where p is a
// polynomial over the ranged input symbols and "atoms" (opaque sub-values with a known range).
typedef long double LD;
static const LD U64R = 0x1p-63L; // slop for our own long double arithmetic
struct Mono
{
    vector<u32> v; // sorted variable ids
    LD lo, hi;
};
static vector<Mono> monos;
static map<vector<u32>, u32> monoIdx;
struct PVar { const Expr* e; LD lo, hi; int sym; };
static vector<PVar> pvars;
static unordered_map<const Expr*, u32> pvarIdx;
static u32 mono(const vector<u32>& v)
{
    auto it = monoIdx.find(v);
    if (it != monoIdx.end())
        return it->second;
    LD lo = 1, hi = 1;
    // power grouping for tighter even powers
    for (size_t i = 0; i < v.size();)
    {
        size_t j = i;
        while (j < v.size() && v[j] == v[i]) j++;
        LD a = pvars[v[i]].lo, b = pvars[v[i]].hi;
        unsigned n = j - i;
        LD pa = powl(a, n), pb = powl(b, n);
        LD l = min(pa, pb), h = max(pa, pb);
        if (n % 2 == 0 && a < 0 && b > 0) l = 0;
        LD c[4] = { lo * l, lo * h, hi * l, hi * h };
        lo = *min_element(c, c + 4);
        hi = *max_element(c, c + 4);
        i  = j;
    }
    u32 id = monos.size();
    monos.push_back({ v, lo, hi });
    monoIdx[v] = id;
    return id;
}
struct Poly
{
    vector<pair<u32, LD>> t; // sorted by mono id
    LD err = 0;
    bool ok = false;
};
static void rangeP(const Poly& p, LD& lo, LD& hi)
{
    lo = hi = 0;
    for (auto& x : p.t)
    {
        LD a = x.second * monos[x.first].lo, b = x.second * monos[x.first].hi;
        lo += min(a, b);
        hi += max(a, b);
    }
}
static LD magP(const Poly& p)
{
    LD lo, hi;
    rangeP(p, lo, hi);
    return max(fabsl(lo), fabsl(hi)) * (1 + 64 * U64R);
}
static LD absSum(const Poly& p)
{
    LD s = 0;
    for (auto& x : p.t)
        s += fabsl(x.second) * max(fabsl(monos[x.first].lo), fabsl(monos[x.first].hi));
    return s;
}
static Poly addP(const Poly& a, const Poly& b, LD sb)
{
    Poly r;
    r.ok = a.ok && b.ok;
    if (!r.ok) return r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size())
    {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
            r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first)
        {
            r.t.push_back({ b.t[j].first, sb * b.t[j].second });
            j++;
        }
        else
        {
            LD v = a.t[i].second + sb * b.t[j].second;
            if (v != 0)
                r.t.push_back({ a.t[i].first, v });
            i++, j++;
        }
    }
    r.err = a.err + b.err;
    return r;
}
// variables standing for the exact square root of a computed value (whose polynomial is in pmemo)
static unordered_map<u32, const Expr*> sqrtVar;
static unordered_map<const Expr*, Poly> pmemo;
static Poly mulP(const Poly& a, const Poly& b);
// s*s -> polynomial under the root
static void reduceSqrt(Poly& r)
{
    if (sqrtVar.empty() || !r.ok) return;
    for (int guard = 0; guard < 64; guard++)
    {
        size_t hit = SIZE_MAX, at = 0;
        for (size_t i = 0; i < r.t.size() && hit == SIZE_MAX; i++)
        {
            auto& v = monos[r.t[i].first].v;
            for (size_t j = 0; j + 1 < v.size(); j++)
                if (v[j] == v[j + 1] && sqrtVar.count(v[j])) { hit = i; at = j; break; }
        }
        if (hit == SIZE_MAX) return;
        auto term     = r.t[hit];
        vector<u32> v = monos[term.first].v;
        u32 sv        = v[at];
        v.erase(v.begin() + at, v.begin() + at + 2);
        r.t.erase(r.t.begin() + hit);
        Poly rest;
        rest.ok = true;
        rest.t.push_back({ mono(v), term.second });
        Poly q = mulP(rest, pmemo[sqrtVar[sv]]);
        if (!q.ok) { r.ok = false; return; }
        LD e = r.err;
        r    = addP(r, q, 1);
        r.err = (e + q.err) * (1 + 8 * U64R) + absSum(q) * 4 * U64R;
    }
    r.ok = false;
}
static Poly mulP(const Poly& a, const Poly& b)
{
    Poly r;
    r.ok = a.ok && b.ok && (double)a.t.size() * b.t.size() < 4e6;
    if (!r.ok) return r;
    if (a.t.size() == 1 && monos[a.t[0].first].v.empty())
    {
        LD c = a.t[0].second;
        r.t  = b.t;
        for (auto& x : r.t) x.second *= c;
    }
    else if (b.t.size() == 1 && monos[b.t[0].first].v.empty())
    {
        LD c = b.t[0].second;
        r.t  = a.t;
        for (auto& x : r.t) x.second *= c;
    }
    else
    {
        map<u32, LD> m;
        for (auto& x : a.t)
            for (auto& y : b.t)
            {
                vector<u32> v = monos[x.first].v;
                v.insert(v.end(), monos[y.first].v.begin(), monos[y.first].v.end());
                sort(v.begin(), v.end());
                if (v.size() > 16) { r.ok = false; return r; }
                m[mono(v)] += x.second * y.second;
            }
        for (auto& x : m)
            if (x.second != 0)
                r.t.push_back(x);
    }
    r.err = (magP(a) * b.err + magP(b) * a.err + a.err * b.err) * (1 + 8 * U64R);
    reduceSqrt(r);
    return r;
}
static const Poly& polyOf(const Expr* e0);
static Poly constP(LD c)
{
    Poly p;
    p.ok = std::isfinite((double)c) ;
    if (c != 0) p.t.push_back({ mono({}), c });
    return p;
}
static Poly atomP(const Expr* e, LD lo, LD hi, int sym = -1)
{
    Poly p;
    p.ok    = true;
    auto it = pvarIdx.find(e);
    u32 v;
    if (it == pvarIdx.end())
    {
        v = pvars.size();
        pvars.push_back({ e, lo, hi, sym });
        pvarIdx[e] = v;
    }
    else
        v = it->second;
    p.t.push_back({ mono({ v }), 1 });
    return p;
}
static LD uOf(unsigned w) { return w == 32 ? 0x1p-24L : 0x1p-53L; }
static LD maxOf(unsigned w) { return w == 32 ? 3.4e38L : 1.7e308L; }
static LD tinyOf(unsigned w) { return w == 32 ? 0x1p-149L : 0x1p-1070L; }
static void roundP(Poly& p, unsigned w)
{
    if (!p.ok) return;
    LD m = magP(p) + p.err;
    if (!(m < maxOf(w))) { p.ok = false; return; }
    p.err = (p.err + uOf(w) * m + tinyOf(w) + absSum(p) * 4 * U64R) * (1 + 8 * U64R);
}
static LD cval(const Expr* e) { return e->w == 32 ? (LD)bf32(e->c->getZExtValue()) : (LD)bf64(e->c->getZExtValue()); }
// integer interval of a bit-vector expr, signed view
static bool intRange(const Expr* e, LD& lo, LD& hi, bool sgn)
{
    switch (e->op)
    {
    case OZExt:
        lo = 0; hi = ldexpl(1, e->k[0]->w) - 1;
        return true;
    case OSExt: lo = -ldexpl(1, e->k[0]->w - 1); hi = ldexpl(1, e->k[0]->w - 1) - 1; return true;
    default:
        if (sgn) { lo = -ldexpl(1, e->w - 1); hi = ldexpl(1, e->w - 1) - 1; }
        else { lo = 0; hi = ldexpl(1, e->w) - 1; }
        return true;
    }
}
// enclosure of a bit-vector expression read as a signed integer
static const Poly& polyOf(const Expr* e0);
static unordered_map<const Expr*, Poly> imemo;
// interval enclosure of a floating point expression, seeing through clamping
static void fpRange(const Expr* e, LD& lo, LD& hi, int depth = 0)
{
    const Poly& p = polyOf(e);
    if (p.ok)
    {
        rangeP(p, lo, hi);
        lo -= p.err; hi += p.err;
    }
    else lo = -INFINITY, hi = INFINITY;
    if (depth > 20) return;
    LD l, h;
    if (e->op == OFRound)
    {
        fpRange(e->k[0], l, h, depth + 1);
        lo = max(lo, floorl(l)); hi = min(hi, ceill(h));
    }
    else if (e->op == OIte && e->k[0]->op == OFCmp && (e->k[0]->aux == 1 || e->k[0]->aux == 2))
    {
        const Expr *c = e->k[0], *a = e->k[1], *b = e->k[2];
        if (!((c->k[0] == a && c->k[1] == b) || (c->k[0] == b && c->k[1] == a)) || !polyOf(a).ok || !polyOf(b).ok) return;
        LD l2, h2;
        fpRange(a, l, h, depth + 1);
        fpRange(b, l2, h2, depth + 1);
        if (c->k[0] == a) lo = max(lo, min(l, l2)), hi = min(hi, min(h, h2));
        else              lo = max(lo, max(l, l2)), hi = min(hi, max(h, h2));
    }
}
// where each bit of e comes from: (expression, bit), or (nullptr, 0/1) for constants, (nullptr, 2) unknown
using BitSrc = pair<const Expr*, int>;
static vector<BitSrc> bitsOf(const Expr* e, int depth = 0)
{
    vector<BitSrc> r(e->w);
    auto opaque = [&] { for (unsigned i = 0; i < e->w; i++) r[i] = { e, (int)i }; };
    auto K = [&](int i) { return bitsOf(e->k[i], depth + 1); };
    if (depth > 30) { opaque(); return r; }
    switch (e->op)
    {
    case OConst: for (unsigned i = 0; i < e->w; i++) r[i] = { nullptr, (int)(*e->c)[i] }; break;
    case OExtract: { auto k = K(0); for (unsigned i = 0; i < e->w; i++) r[i] = k[e->aux + i]; break; }
    case OConcat: { auto h = K(0), l = K(1); for (unsigned i = 0; i < e->w; i++) r[i] = i < l.size() ? l[i] : h[i - l.size()]; break; }
    case OZExt: case OSExt:
    {
        auto k = K(0);
        for (unsigned i = 0; i < e->w; i++) r[i] = i < k.size() ? k[i] : e->op == OSExt ? k.back() : BitSrc{ nullptr, 0 };
        break;
    }
    case OAnd: case OOr:
    {
        auto a = K(0), b = K(1);
        int absorb = e->op == OAnd ? 0 : 1;
        for (unsigned i = 0; i < e->w; i++)
        {
            auto isc = [&](const BitSrc& x, int v) { return !x.first && x.second == v; };
            if (isc(a[i], absorb) || isc(b[i], absorb)) r[i] = { nullptr, absorb };
            else if (isc(a[i], !absorb)) r[i] = b[i];
            else if (isc(b[i], !absorb) || a[i] == b[i]) r[i] = a[i];
            else r[i] = { nullptr, 2 };
        }
        break;
    }
    case OShl: case OLShr: case OAShr:
        if (e->k[1]->op == OConst && e->k[1]->c->ult(e->w))
        {
            auto k = K(0);
            int n = (int)e->k[1]->c->getZExtValue(), w = e->w;
            for (int i = 0; i < w; i++)
            {
                int j = e->op == OShl ? i - n : i + n;
                r[i] = j < 0 ? BitSrc{ nullptr, 0 } : j < w ? k[j] : e->op == OAShr ? k[w - 1] : BitSrc{ nullptr, 0 };
            }
            break;
        }
        [[fallthrough]];
    default: opaque();
    }
    return r;
}
static Poly intPoly(const Expr* e, int depth = 0)
{
    auto it = imemo.find(e);
    if (it != imemo.end()) return it->second;
    auto fits = [&](const Poly& p) {
        LD lo, hi, lim = ldexpl(1, e->w - 1);
        if (!p.ok) return false;
        rangeP(p, lo, hi);
        return lo - p.err >= -lim && hi + p.err <= lim - 1;
    };
    Poly r;
    bool done = false;
    if (depth < 40 && e->w <= 64) switch (e->op)
    {
    case OConst: r = constP((LD)e->c->getSExtValue()); done = true; break;
    case OSym:
        if (syms[e->aux].ranged && !syms[e->aux].isF) { r = atomP(e, syms[e->aux].lo, syms[e->aux].hi, e->aux); done = true; }
        break;
    case OSExt: r = intPoly(e->k[0], depth + 1); done = r.ok; break;
    case OZExt:
    {
        r = intPoly(e->k[0], depth + 1);
        LD lo = -1, hi;
        if (r.ok) rangeP(r, lo, hi);
        done = r.ok && lo - r.err >= 0;
        break;
    }
    case OExtract:
        if (e->aux == 0) { r = intPoly(e->k[0], depth + 1); done = fits(r); }
        break;
    case OAdd: case OSub:
    {
        r    = addP(intPoly(e->k[0], depth + 1), intPoly(e->k[1], depth + 1), e->op == OAdd ? 1 : -1);
        done = fits(r);
        break;
    }
    case OFPToSI:
        r = polyOf(e->k[0]);
        if (r.ok && e->k[0]->op != OFRound) r.err += 1;
        if (r.ok)
        {
            LD lo, hi, lim = ldexpl(1, e->w - 1);
            fpRange(e->k[0], lo, hi);
            done = lo > -lim - 1 && hi < lim;
        }
        break;
    case OConcat: case OAnd: case OOr: case OShl: case OAShr: case OLShr:
    {
        // the low n bits of one expression, sign-extended
        auto b = bitsOf(e);
        const Expr* src = b[0].first;
        if (!src || src == e || b[0].second != 0) break;
        unsigned n = 1;
        while (n < e->w && n < src->w && b[n] == BitSrc{ src, (int)n }) n++;
        for (unsigned i = n; i < e->w; i++)
            if (b[i] != b[n - 1]) n = 0, i = e->w;
        if (n < 2) break;
        r = intPoly(src, depth + 1);
        LD lo, hi, lim = ldexpl(1, n - 1);
        if (!r.ok) break;
        rangeP(r, lo, hi);
        lo -= r.err; hi += r.err;
        if (src->op == OFPToSI)
        {
            LD l2, h2;
            fpRange(src->k[0], l2, h2);
            lo = max(lo, l2 - (LD)0), hi = min(hi, h2);
        }
        done = lo > -lim - 1 && hi < lim;
        break;
    }
    default: break;
    }
    if (!done)
    {
        LD lo, hi;
        intRange(e, lo, hi, true);
        r = atomP(e, lo, hi);
    }
    return imemo[e] = r;
}
// ite(x < y, ...) as min/max whose outcome is (almost) always the same operand
static bool almostFixed(const Expr* e, Poly& r)
{
    const Expr *c = e->k[0], *a = e->k[1], *b = e->k[2];
    while ((c->op == OXor && c->w == 1 && c->k[1]->op == OConst && c->k[1]->c->isOne()) ||
           (c->op == OEq && c->k[0]->w == 1 && c->k[1]->op == OConst && c->k[1]->c->isZero()))
    {
        c = c->k[0];
        swap(a, b);
    }
    if (c->op != OFCmp || (c->aux != 1 && c->aux != 2)) return false;
    bool mn;
    if (c->k[0] == a && c->k[1] == b) mn = true;
    else if (c->k[0] == b && c->k[1] == a) mn = false;
    else return false;
    const Poly &pa = pmemo[a], &pb = pmemo[b];
    Poly d = addP(pa, pb, -1);
    LD lo, hi;
    rangeP(d, lo, hi); // a - b
    lo -= d.err; hi += d.err;
    LD ea = mn ? max((LD)0, hi) : max((LD)0, -lo), eb = mn ? max((LD)0, -lo) : max((LD)0, hi);
    LD m = max(magP(pa), magP(pb));
    if (min(ea, eb) > m * 1e-3L) return false;
    r = ea <= eb ? pa : pb;
    r.err += min(ea, eb);
    return true;
}
static Poly onePoly(const Expr* e)
{
    Poly bad;
    auto P = [&](int i) -> const Poly& { return pmemo[e->k[i]]; };
    switch (e->op)
    {
    case OConst:
        if (e->w != 32 && e->w != 64) return bad;
        return constP(cval(e));
    case OSym:
        if (!syms[e->aux].ranged) return bad;
        return atomP(e, syms[e->aux].lo, syms[e->aux].hi, e->aux);
    case OOr: case OAnd: case OConcat:
    {
        // bits of a float with constant sign and exponent
        if (e->w != 32 && e->w != 64) return bad;
        auto b = bitsOf(e);
        unsigned mb = e->w == 32 ? 23 : 52, eb = e->w - 1 - mb;
        int ex = 0;
        for (unsigned i = mb; i < e->w; i++)
        {
            if (b[i].first || b[i].second > 1) return bad;
            if (i < e->w - 1) ex |= b[i].second << (i - mb);
        }
        if (ex == 0 || ex == (1 << eb) - 1) return bad;
        LD lo = ldexpl(1, ex - ((1 << (eb - 1)) - 1)), hi = lo * 2;
        return b[e->w - 1].second ? atomP(e, -hi, -lo) : atomP(e, lo, hi);
    }
    case OFAdd: case OFSub:
    {
        if (!P(0).ok || !P(1).ok) return bad;
        Poly r = addP(P(0), P(1), e->op == OFAdd ? 1 : -1);
        roundP(r, e->w);
        return r;
    }
    case OXAddR: return addP(P(0), P(1), 1);
    case OXMulR: { Poly r = mulP(P(0), P(1)); if (r.ok) r.err += absSum(r) * 4 * U64R; return r; }
    case OFMul:
    {
        if (!P(0).ok || !P(1).ok) return bad;
        Poly r = mulP(P(0), P(1));
        // multiplication by power of two is exact (barring underflow)
        for (int i = 0; i < 2; i++)
            if (e->k[i]->op == OConst)
            {
                int ex;
                if (fabsl(frexpl(cval(e->k[i]), &ex)) == 0.5L) { r.err += tinyOf(e->w); return r; }
            }
        roundP(r, e->w);
        return r;
    }
    case OFma:
    {
        if (!P(0).ok || !P(1).ok || !P(2).ok) return bad;
        Poly r = addP(mulP(P(0), P(1)), P(2), 1);
        roundP(r, e->w);
        return r;
    }
    case OFDiv:
    {
        if (!P(0).ok || e->k[1]->op != OConst) 
        {
            if (!P(0).ok || !P(1).ok) return bad;
            LD lo, hi;
            rangeP(P(1), lo, hi);
            lo -= P(1).err; hi += P(1).err;
            if (lo <= 0 && hi >= 0) return bad;
            LD m = (magP(P(0)) + P(0).err) / min(fabsl(lo), fabsl(hi)) * (1 + 2 * uOf(e->w));
            return atomP(e, -m, m);
        }
        LD c = cval(e->k[1]);
        if (c == 0) return bad;
        Poly r = mulP(P(0), constP(1 / c));
        r.err += absSum(r) * 4 * U64R;
        roundP(r, e->w);
        return r;
    }
    case OFNeg:
    {
        Poly r = P(0);
        for (auto& x : r.t) x.second = -x.second;
        return r;
    }
    case OFPExt: return P(0);
    case OFPTrunc: { Poly r = P(0); roundP(r, 32); return r; }
    case OFSqrt:
    {
        if (!P(0).ok) return bad;
        LD m = sqrtl(magP(P(0)) + P(0).err) * (1 + 2 * uOf(e->w));
        LD lo, hi;
        rangeP(P(0), lo, hi);
        Poly in = P(0); // atomP may not touch pmemo, but keep a copy
        Poly r  = atomP(e, 0, m);
        if (lo >= -4 * in.err - tinyOf(e->w)) // a root of a non-negative quantity: remember its square
        {
            sqrtVar[pvarIdx[e]] = e->k[0];
            roundP(r, e->w);
        }
        return r;
    }
    case OFAbs:
    {
        if (!P(0).ok) return bad;
        return atomP(e, 0, magP(P(0)) + P(0).err);
    }
    case OFRound:
    {
        if (!P(0).ok) return bad;
        Poly r = P(0);
        r.err += e->aux == RNearInt || e->aux == RRoundAway ? 0.5L : 1.0L;
        return r;
    }
    case OIte:
    {
        if (!P(1).ok || !P(2).ok) return bad;
        Poly mm;
        if (almostFixed(e, mm)) return mm;
        LD l1, h1, l2, h2;
        rangeP(P(1), l1, h1);
        rangeP(P(2), l2, h2);
        return atomP(e, min(l1 - P(1).err, l2 - P(2).err), max(h1 + P(1).err, h2 + P(2).err));
    }
    case OSIToFP: case OUIToFP:
    {
        LD lo, hi;
        Poly r = intPoly(e->k[0]);
        rangeP(r, lo, hi);
        if (e->op == OUIToFP && lo - r.err < 0)
        {
            intRange(e->k[0], lo, hi, false);
            r = atomP(e, lo, hi);
        }
        unsigned mant = e->w == 32 ? 24 : 53;
        if (magP(r) + r.err > ldexpl(1, mant)) roundP(r, e->w); // otherwise exact: an integer that fits
        return r;
    }
    case OFun:
    {
        const string& n = funNames[e->aux];
        if (n == "sin" || n == "cos") return atomP(e, -1, 1);
        return bad;
    }
    default: return bad;
    }
}
static const Poly& polyOf(const Expr* e0)
{
    vector<const Expr*> st{ e0 };
    while (!st.empty())
    {
        const Expr* e = st.back();
        if (pmemo.count(e)) { st.pop_back(); continue; }
        bool fpop = (e->op >= OFAdd && e->op <= OFma) || e->op == OFRound || e->op == OFPExt || e->op == OFPTrunc ||
                    e->op == OXAddR || e->op == OXMulR || (e->op == OIte);
        bool ready = true;
        if (fpop)
            for (int i = (e->op == OIte ? 1 : 0); i < e->nk; i++)
                if (!pmemo.count(e->k[i])) { st.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        Poly p    = onePoly(e);
        pmemo[e]  = move(p);
        st.pop_back();
    }
    return pmemo[e0];
}
CloseResult closeCheck(const Expr* a, const Expr* ref, const Expr* const* lv, const double* lc, size_t ln, double tol)
{
    CloseResult R;
    R.res = RUnknown;
    R.bound = R.maxdev = 0;
    Poly pa = polyOf(a);
    if (!pa.ok)
    {
        // innermost node without an enclosure
        const Expr* e = a;
        for (;;)
        {
            const Expr* nx = nullptr;
            for (int i = 0; i < e->nk; i++) { auto it = pmemo.find(e->k[i]); if (it != pmemo.end() && !it->second.ok) { nx = e->k[i]; break; } }
            if (!nx) break;
            e = nx;
        }
        R.why = "no real enclosure for value: " + exprStr(e, 3);
        return R;
    }
    Poly pr;
    if (ref)
        pr = polyOf(ref);
    else
    {
        map<u32, LD> m;
        pr.ok = true;
        for (size_t i = 0; i < ln; i++)
        {
            const Poly& q = polyOf(lv[i]);
            if (!q.ok) { pr.ok = false; break; }
            for (auto& x : q.t)
                m[x.first] += (LD)lc[i] * x.second;
            pr.err += fabsl((LD)lc[i]) * q.err + fabsl((LD)lc[i]) * magP(q) * 4 * U64R;
        }
        for (auto& x : m)
            if (x.second != 0) pr.t.push_back(x);
    }
    if (!pr.ok) { R.why = "no real enclosure for reference"; return R; }
    Poly d = addP(pa, pr, -1);
    LD E   = d.err;
    // coefficients that cannot matter are moved into the error term
    vector<pair<u32, LD>> keep;
    LD lumped = 0;
    LD thr    = tol / (16 * (d.t.size() + 1));
    for (auto& x : d.t)
    {
        LD m = fabsl(x.second) * max(fabsl(monos[x.first].lo), fabsl(monos[x.first].hi));
        if (m < thr) lumped += m; else keep.push_back(x);
    }
    E       = (E + lumped) * (1 + 1e-12L);
    R.bound = (double)E;
    // SMT query: exists m_i in [lo_i,hi_i], |err| <= E with |sum c_i m_i + err| > tol
    auto t0 = chrono::steady_clock::now();
    SS.queries++;
    SS.lra++;
    z3::solver s(C(), "QF_LRA");
    z3::params prm(C());
    prm.set("timeout", queryTimeoutMs);
    s.set(prm);
    auto rv = [&](LD x) {
        int ex;
        LD m = frexpl(x, &ex); // exact: mantissa 64 bit
        long long mi = (long long)ldexpl(m, 62);
        // (slight truncation of 2 bits is covered by the (1+1e-12) slack on E)
        ZE v = C().real_val(to_string(mi).c_str());
        int sft = ex - 62;
        string p2 = "1";
        // 2^|sft| as decimal via z3 power of big ints: build using APInt
        APInt big(abs(sft) + 2, 0);
        big.setBit(abs(sft));
        llvm::SmallString<64> str;
        big.toString(str, 10, false);
        ZE pw = C().real_val(str.c_str());
        return sft >= 0 ? (v * pw).simplify() : (v / pw).simplify();
    };
    z3::expr_vector terms(C());
    ZE err = C().real_const("err");
    s.add(err <= rv(E) && err >= -rv(E));
    terms.push_back(err);
    vector<ZE> xs;
    for (auto& x : keep)
    {
        ZE v = C().real_const(("m" + to_string(x.first)).c_str());
        s.add(v >= rv(monos[x.first].lo) && v <= rv(monos[x.first].hi));
        xs.push_back(v);
        terms.push_back(rv(x.second) * v);
    }
    ZE tot = z3::sum(terms);
    ZE T   = rv((LD)tol);
    s.add(tot > T || tot < -T);
    auto q = s.check();
    LD lo, hi;
    rangeP(d, lo, hi);
    R.maxdev = (double)max(fabsl(lo), fabsl(hi));
    if (q == z3::unsat)
    {
        R.res = RUnsat;
        SS.unsat++;
    }
    else if (q == z3::sat)
    {
        SS.sat++;
        R.res       = RSat;
        z3::model m = s.get_model();
        // lift the monomial assignment to input variables
        auto enc = [](const SymInfo& si, double v) {
            return !si.isF      ? APInt(si.w, (u64)(i64)v, true)
                   : si.w == 32 ? APInt(32, fb32((float)v))
                                : APInt(64, fb64(v));
        };
        for (size_t i = 0; i < keep.size(); i++)
        {
            ZE v     = m.eval(xs[i], true);
            double x = 0;
            string ds = v.get_decimal_string(20);
            x         = strtod(ds.c_str(), nullptr);
            auto& mo  = monos[keep[i].first];
            if (mo.v.size() == 1 && pvars[mo.v[0]].sym >= 0)
            {
                auto& si = syms[pvars[mo.v[0]].sym];
                x        = min(max(x, si.lo), si.hi);
                R.corner[pvars[mo.v[0]].sym] = enc(si, x);
            }
            else
                for (u32 pv : mo.v)
                    if (pvars[pv].sym >= 0 && !R.corner.count(pvars[pv].sym))
                    {
                        auto& si = syms[pvars[pv].sym];
                        double z = keep[i].second * (lo < -hi ? -1 : 1) > 0 ? si.hi : si.lo;
                        R.corner[pvars[pv].sym] = enc(si, z);
                    }
        }
    }
    else
        SS.unknown++;
    SS.time += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    return R;
}
