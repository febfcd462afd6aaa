// Adaptive Taylor-model decision of closeness claims about functions of a few ranged symbols.
//
// decideFn(a, ref, abstol, reltol): is |a - ref| <= abstol + reltol*|ref| for every value of the ranged symbols?
// The box of symbol ranges is divided until, on each part, the bit-level expression `a` (IEEE operations, exponent
// manipulation, range reduction, selection) has a Taylor model: a polynomial in the normalised symbols plus a bound
// on everything else (truncation, rounding of each operation). The reference (libm functions stand for the exact
// mathematical function) gets one as well; the resulting linear queries over the monomials go to z3. Parts that
// shrink to single floating point numbers are evaluated with the exact IEEE semantics.
#include "solver.h"
#include <algorithm>
#include <cmath>
#include <z3++.h>
using namespace std;
typedef long double LD;
typedef __int128 I128;
static const LD SL = 0x1p-62L; // relative slop for our own long double arithmetic
static int NV, DG, NM;         // variables, degree, monomials
static vector<vector<int>> expo;
static vector<vector<int>> mulIdx; // index of product or -1
static void setupMonos(int nv)
{
    static int cur = -1;
    if (cur == nv) return;
    cur = nv;
    NV  = nv;
    DG  = nv <= 1 ? 14 : nv == 2 ? 7 : nv == 3 ? 4 : 2;
    expo.clear();
    map<vector<int>, int> idx;
    for (int d = 0; d <= DG; d++)
    {
        vector<int> e(max(nv, 1), 0);
        function<void(int, int)> rec = [&](int i, int left) {
            if (i == (int)e.size() - 1) { e[i] = left; idx[e] = expo.size(); expo.push_back(e); return; }
            for (int k = left; k >= 0; k--) { e[i] = k; rec(i + 1, left - k); }
        };
        rec(0, d);
    }
    NM = expo.size();
    mulIdx.assign(NM, vector<int>(NM, -1));
    for (int i = 0; i < NM; i++)
        for (int j = 0; j < NM; j++)
        {
            vector<int> e = expo[i];
            for (size_t k = 0; k < e.size(); k++) e[k] += expo[j][k];
            auto it = idx.find(e);
            if (it != idx.end()) mulIdx[i][j] = it->second;
        }
}
static const int MAXM = 36;
struct TM
{
    LD c[MAXM];
    LD err;
};
static TM tconst(LD v) { TM t; for (int i = 0; i < NM; i++) t.c[i] = 0; t.c[0] = v; t.err = 0; return t; }
static LD rad(const TM& t) { LD s = 0; for (int i = 1; i < NM; i++) s += fabsl(t.c[i]); return s * (1 + SL * 64); }
static LD magT(const TM& t) { return fabsl(t.c[0]) + rad(t); }
static TM tadd(const TM& a, const TM& b, LD s)
{
    TM r;
    LD m = 0;
    for (int i = 0; i < NM; i++) { r.c[i] = a.c[i] + s * b.c[i]; m += fabsl(r.c[i]); }
    r.err = (a.err + b.err + m * SL) * (1 + SL * 8);
    return r;
}
static TM tscale(const TM& a, LD s)
{
    TM r;
    LD m = 0;
    for (int i = 0; i < NM; i++) { r.c[i] = a.c[i] * s; m += fabsl(r.c[i]); }
    r.err = (a.err * fabsl(s) + m * SL) * (1 + SL * 8);
    return r;
}
static TM tmul(const TM& a, const TM& b)
{
    TM r = tconst(0);
    LD over = 0, m = 0;
    for (int i = 0; i < NM; i++)
    {
        if (a.c[i] == 0) continue;
        for (int j = 0; j < NM; j++)
        {
            LD p = a.c[i] * b.c[j];
            if (p == 0) continue;
            int k = mulIdx[i][j];
            m += fabsl(p);
            if (k < 0) over += fabsl(p);
            else r.c[k] += p;
        }
    }
    LD ma = magT(a), mb = magT(b);
    r.err = (over + ma * b.err + mb * a.err + a.err * b.err + m * SL * 4) * (1 + SL * 64);
    return r;
}
// sum a_k (x-c)^k, c = x.c[0]
static TM tser(const TM& x, const LD* a, LD rem, LD lip)
{
    TM r = x;
    r.c[0] = 0;
    r.err  = 0;
    TM y = tconst(a[DG]);
    for (int k = DG - 1; k >= 0; k--)
    {
        y = tmul(y, r);
        y.c[0] += a[k];
        y.err += fabsl(a[k]) * SL * 4;
    }
    y.err = (y.err + rem + lip * x.err) * (1 + SL * 64);
    return y;
}
struct AV
{
    bool f = false;       // a real number enclosed by t and [lo,hi]
    bool i = false;       // an integer in [il,ih] (signed view)
    bool k = false;       // known bits
    unsigned char sg = 2; // sign bit of a floating point number: 0, 1, 2 unknown
    TM t;
    LD lo = 0, hi = 0;
    I128 il = 0, ih = 0;
    APInt bits;
};
struct Box { vector<LD> lo, hi; }; // float symbols: exactly representable end points
static vector<u32> vars;
static Box* B;
static unordered_map<const Expr*, AV> memo;
// comparisons, roundings and exponents with two possible outcomes within the box
static map<const Expr*, AV> forced;        // and the outcome assumed for them
struct Choice { const Expr* e; AV a, b; };
static vector<Choice> undecided;
static LD uW(unsigned w) { return w == 32 ? 0x1p-24L : 0x1p-53L; }
static LD tiny(unsigned w) { return w == 32 ? 0x1p-149L : 0x1p-1070L; }
static LD maxW(unsigned w) { return w == 32 ? 3.4e38L : 1.79e308L; }
static void clip(AV& v)
{
    LD r = rad(v.t) + v.t.err;
    LD s = fabsl(v.t.c[0]) * SL;
    v.lo = max(v.lo, v.t.c[0] - r - s);
    v.hi = min(v.hi, v.t.c[0] + r + s);
    if (v.lo > v.hi) v.lo = v.hi = (v.lo + v.hi) / 2;
}
static AV fromT(const TM& t, unsigned w, unsigned char sg = 2)
{
    AV v;
    v.t  = t;
    v.lo = -INFINITY;
    v.hi = INFINITY;
    for (int i = 0; i < NM; i++) if (!isfinite(t.c[i])) return v;
    if (!isfinite(t.err)) return v;
    clip(v);
    if (w && max(fabsl(v.lo), fabsl(v.hi)) > maxW(w)) return v;
    v.f  = true;
    if (w && sg == 0) v.lo = max(v.lo, (LD)0), v.hi = max(v.hi, (LD)0);
    if (w && sg == 1) v.hi = min(v.hi, (LD)0), v.lo = min(v.lo, (LD)0);
    v.sg = v.lo > 0 ? 0 : v.hi < 0 ? 1 : sg;
    return v;
}
static AV rounded(TM t, unsigned w, unsigned char sg = 2)
{
    LD m = magT(t) + t.err;
    t.err += (uW(w) * m + tiny(w)) * (1 + SL * 8);
    return fromT(t, w, sg);
}
static AV fromBits(const APInt& b)
{
    AV v;
    v.k    = true;
    v.bits = b;
    unsigned w = b.getBitWidth();
    if (w <= 64) { v.i = true; v.il = v.ih = b.getSExtValue(); }
    if (w == 32 || w == 64)
    {
        LD x = w == 32 ? (LD)bf32(b.getZExtValue()) : (LD)bf64(b.getZExtValue());
        if (isfinite((double)x)) { v.f = true; v.t = tconst(x); v.lo = v.hi = x; v.sg = b.isNegative(); }
    }
    return v;
}
static AV fromI(I128 l, I128 h, unsigned w)
{
    AV v;
    I128 lim = (I128)1 << (w - 1);
    if (w > 64) return v;
    if (l == h)
    {
        I128 x = l & (((I128)1 << w) - 1);
        return fromBits(APInt(w, (u64)x));
    }
    if (l < -lim || h >= lim) return v;
    v.i  = true;
    v.il = l;
    v.ih = h;
    return v;
}
static AV fromIv(LD lo, LD hi, unsigned w)
{
    TM t  = tconst((lo + hi) / 2);
    t.err = (hi - lo) / 2 * (1 + 4 * SL) + fabsl(t.c[0]) * 2 * SL;
    AV v  = fromT(t, w);
    if (v.f) { v.lo = max(v.lo, lo); v.hi = min(v.hi, hi); }
    return v;
}
static bool ieval(AV& v, unsigned w) // integer view
{
    if (v.i) return true;
    if (!v.f || (w != 32 && w != 64) || v.sg == 2) return false;
    auto enc = [&](LD x, bool up) -> I128 { // nearest representable towards the inside
        if (w == 32)
        {
            float f = (float)x;
            if (up && (LD)f < x) f = nextafterf(f, INFINITY);
            if (!up && (LD)f > x) f = nextafterf(f, -INFINITY);
            return (int32_t)fb32(f);
        }
        double f = (double)x;
        if (up && (LD)f < x) f = nextafter(f, INFINITY);
        if (!up && (LD)f > x) f = nextafter(f, -INFINITY);
        return (int64_t)fb64(f);
    };
    I128 a, b, lim = (I128)1 << (w - 1);
    if (v.sg == 0) { a = v.lo <= 0 ? 0 : enc(v.lo, true); b = v.hi <= 0 ? 0 : enc(v.hi, false); }
    else           { a = v.hi >= 0 ? -lim : enc(v.hi, false); b = v.lo >= 0 ? -lim : enc(v.lo, true); }
    if (a > b) swap(a, b);
    v.il = a;
    v.ih = b;
    v.i  = true;
    return true;
}
static bool point(AV& v, unsigned w) { return v.k || (ieval(v, w) && v.il == v.ih); }
static AV tryConst(AV v, unsigned w) // a floating point interval holding one number
{
    if (!v.k && v.f && v.lo == v.hi && v.lo != 0 && (w == 32 || w == 64))
        return fromBits(w == 32 ? APInt(32, fb32((float)v.lo)) : APInt(64, fb64((double)v.lo)));
    return v;
}
static AV& ev(const Expr* e);
static AV fneg(const AV& a)
{
    AV v;
    if (!a.f) return v;
    v    = a;
    v.k  = false;
    v.i  = false;
    v.t  = tscale(a.t, -1);
    v.t.err = a.t.err;
    v.lo = -a.hi;
    v.hi = -a.lo;
    v.sg = a.sg == 2 ? 2 : 1 - a.sg;
    return v;
}
static AV fabs_(const AV& a)
{
    AV v;
    if (!a.f) return v;
    if (a.sg == 0 || a.lo >= 0) { v = a; v.k = v.i = false; v.sg = 0; return v; }
    if (a.sg == 1 || a.hi <= 0) { v = fneg(a); v.sg = 0; return v; }
    v    = fromIv(0, max(-a.lo, a.hi), 0);
    v.sg = 0;
    return v;
}
static bool trecip(const AV& a, TM& out)
{
    if (!a.f || (a.lo <= 0 && a.hi >= 0)) return false;
    LD c = a.t.c[0], q = rad(a.t) / fabsl(c), m = min(fabsl(a.lo), fabsl(a.hi));
    if (c == 0 || q > 0.5L)
    {
        LD l = 1 / a.hi, h = 1 / a.lo;
        out  = fromIv(l, h, 0).t;
        return true;
    }
    LD k[64];
    k[0] = 1 / c;
    for (int j = 1; j <= DG; j++) k[j] = -k[j - 1] / c;
    // value of the polynomial part may leave [lo,hi] by err only
    LD mm = min(m, fabsl(c) * (1 - q) - a.t.err);
    if (mm <= 0) { out = fromIv(1 / a.hi, 1 / a.lo, 0).t; return true; }
    out = tser(a.t, k, powl(q, DG + 1) / (fabsl(c) * (1 - q)), 1 / (mm * mm));
    return true;
}
static bool tpowc(const AV& a, LD p, TM& out) // positive base, |p| <= 1
{
    if (!a.f || a.lo <= 0) return false;
    LD c = a.t.c[0], q = rad(a.t) / c;
    if (c <= 0 || q > 0.5L || a.t.err > 0.25L * c)
    {
        LD l = powl(a.lo, p), h = powl(a.hi, p);
        out  = fromIv(min(l, h), max(l, h), 0).t;
        return true;
    }
    LD k[64];
    k[0] = powl(c, p);
    for (int j = 1; j <= DG; j++) k[j] = k[j - 1] * (p - (j - 1)) / j / c;
    LD m = max(a.lo, c * (1 - q) - a.t.err);
    if (m <= 0) m = a.lo;
    m = min(m, min(a.lo, c));
    out = tser(a.t, k, k[0] * powl(q, DG + 1) / (1 - q), fabsl(p) * powl(m, p - 1));
    return true;
}
static bool texp(const AV& a, TM& out)
{
    if (!a.f || a.hi > 11000 || rad(a.t) > 20) return false;
    LD c = a.t.c[0], k[64], r = rad(a.t), rem = 1;
    k[0] = expl(c);
    for (int j = 1; j <= DG; j++) k[j] = k[j - 1] / j;
    for (int j = 1; j <= DG + 1; j++) rem *= r / j;
    LD e = expl(c + r + a.t.err);
    out = tser(a.t, k, rem * e, e);
    return true;
}
static bool tlog(const AV& a, TM& out)
{
    if (!a.f || a.lo <= 0) return false;
    LD c = a.t.c[0], q = rad(a.t) / fabsl(c);
    if (c <= 0 || q > 0.5L) { out = fromIv(logl(a.lo), logl(a.hi), 0).t; return true; }
    LD k[64], pw = 1;
    k[0] = logl(c);
    for (int j = 1; j <= DG; j++) { pw /= c; k[j] = (j & 1 ? 1 : -1) * pw / j; }
    LD m = min(a.lo, c * (1 - q) - a.t.err);
    if (m <= 0) return false;
    out = tser(a.t, k, powl(q, DG + 1) / ((DG + 1) * (1 - q)), 1 / m);
    return true;
}
static bool tsincos(const AV& a, bool cosine, TM& out)
{
    if (!a.f || rad(a.t) > 20) return false;
    LD c = a.t.c[0], k[64], r = rad(a.t), rem = 1, fact = 1;
    LD s[4] = { sinl(c), cosl(c), -sinl(c), -cosl(c) };
    for (int j = 0; j <= DG; j++) { if (j) fact *= j; k[j] = s[(j + cosine) & 3] / fact; }
    for (int j = 1; j <= DG + 1; j++) rem *= r / j;
    out = tser(a.t, k, rem, 1);
    return true;
}
static bool tatan(const AV& a, TM& out)
{
    if (!a.f) return false;
    LD c = a.t.c[0], A = 1 + c * c, k[64], g0, g1, r = rad(a.t);
    LD m = a.lo <= 0 && a.hi >= 0 ? 0 : min(fabsl(a.lo), fabsl(a.hi));
    LD q = r / sqrtl(1 + m * m);
    if (q > 0.9L) { out = fromIv(atanl(a.lo), atanl(a.hi), 0).t; return true; }
    vector<LD> g(DG + 2);
    g[0] = 1 / A;
    for (int j = 1; j <= DG; j++) g[j] = -(2 * c * g[j - 1] + (j > 1 ? g[j - 2] : 0)) / A;
    k[0] = atanl(c);
    for (int j = 1; j <= DG; j++) k[j] = g[j - 1] / j;
    out = tser(a.t, k, powl(q, DG + 1) / (DG + 1) * (1 + SL * 64), 1);
    return true;
}
static bool tasin(const AV& a, TM& out)
{
    if (!a.f || a.lo <= -1 || a.hi >= 1) return false;
    LD c = a.t.c[0], d = 1 - fabsl(c), r = rad(a.t), q = r / d;
    LD m = max(fabsl(a.lo), fabsl(a.hi));
    if (d <= 0 || q > 0.5L) { out = fromIv(asinl(a.lo), asinl(a.hi), 0).t; return true; }
    LD k[64], A = (1 - c) * (1 + c), h1 = -2 * c, h2 = -1, p = -0.5L;
    vector<LD> y(DG + 2);
    y[0] = 1 / sqrtl(A);
    for (int j = 0; j <= DG; j++)
    {
        LD ym = j ? y[j - 1] : 0;
        y[j + 1] = (p * h1 * y[j] + 2 * p * h2 * ym - h1 * j * y[j] - h2 * (j - 1) * ym) / (A * (j + 1));
    }
    k[0] = asinl(c);
    for (int j = 1; j <= DG; j++) k[j] = y[j - 1] / j;
    LD mm = max(m, fabsl(c) + r + a.t.err);
    if (mm >= 1) return false;
    out = tser(a.t, k, 1.5708L * powl(q, DG + 1) / (1 - q), 1 / sqrtl((1 - mm) * (1 + mm)));
    return true;
}
static const LD PI = 3.14159265358979323846264338327950288L;
static AV avT(const TM& t) { return fromT(t, 0); }
static bool funT(const string& n, vector<const AV*> x, TM& o)
{
    TM a, b;
    for (auto v : x) if (!v->f) return false;
    const AV& X = *x[0];
    if (n == "sin") return tsincos(X, false, o);
    if (n == "cos") return tsincos(X, true, o);
    if (n == "tan")
    {
        if (!tsincos(X, false, a) || !tsincos(X, true, b) || !trecip(avT(b), b)) return false;
        o = tmul(a, b);
        return true;
    }
    if (n == "exp") return texp(X, o);
    if (n == "exp2" || n == "exp10") return texp(avT(tscale(X.t, logl(n == "exp2" ? 2 : 10))), o);
    if (n == "expm1") { if (!texp(X, o)) return false; o.c[0] -= 1; return true; }
    if (n == "log") return tlog(X, o);
    if (n == "log2" || n == "log10") { if (!tlog(X, o)) return false; o = tscale(o, 1 / logl(n == "log2" ? 2 : 10)); return true; }
    if (n == "log1p") { a = X.t; a.c[0] += 1; return tlog(avT(a), o); }
    if (n == "atan") return tatan(X, o);
    if (n == "asin") return tasin(X, o);
    if (n == "acos") { if (!tasin(X, o)) return false; o = tscale(o, -1); o.c[0] += PI / 2; return true; }
    if (n == "sinh" || n == "cosh")
    {
        if (!texp(X, a) || !texp(fneg(X), b)) return false;
        o = tscale(tadd(a, b, n == "sinh" ? -1 : 1), 0.5L);
        return true;
    }
    if (n == "tanh")
    {
        if (X.lo > 40) { o = fromIv(1 - 1e-30L, 1, 0).t; return true; }
        if (!texp(avT(tscale(X.t, 2)), a)) return false;
        a.c[0] += 1;
        if (!trecip(avT(a), b)) return false;
        o = tscale(b, -2);
        o.c[0] += 1;
        return true;
    }
    if (n == "cbrt")
    {
        if (X.lo > 0) return tpowc(X, 1.0L / 3, o);
        if (X.hi < 0) { if (!tpowc(fneg(X), 1.0L / 3, o)) return false; o = tscale(o, -1); return true; }
        return false;
    }
    if (x.size() < 2) return false;
    const AV& Y = *x[1];
    if (n == "pow")
    {
        if (X.lo > 0) { if (!tlog(X, a)) return false; return texp(avT(tmul(a, Y.t)), o); }
        if (X.hi < 0 && Y.lo == Y.hi && floorl(Y.lo) == Y.lo)
        {
            if (!tlog(fneg(X), a) || !texp(avT(tmul(a, Y.t)), o)) return false;
            if (fmodl(Y.lo, 2) != 0) o = tscale(o, -1);
            return true;
        }
        return false;
    }
    if (n == "hypot") return tpowc(avT(tadd(tmul(X.t, X.t), tmul(Y.t, Y.t), 1)), 0.5L, o);
    if (n == "atan2") // X is y, Y is x
    {
        if (Y.lo > 0 || (Y.hi < 0 && (X.lo > 0 || X.hi < 0)))
        {
            if (max(fabsl(X.lo), fabsl(X.hi)) <= 4 * min(fabsl(Y.lo), fabsl(Y.hi)))
            {
                if (!trecip(Y, a) || !tatan(avT(tmul(X.t, a)), o)) return false;
                if (Y.hi < 0) o.c[0] += X.lo > 0 ? PI : -PI;
                return true;
            }
        }
        if (X.lo > 0 || X.hi < 0)
        {
            if (!trecip(X, a) || !tatan(avT(tmul(Y.t, a)), o)) return false;
            o = tscale(o, -1);
            o.c[0] += X.lo > 0 ? PI / 2 : -PI / 2;
            return true;
        }
        return false;
    }
    return false;
}
static AV join(AV& a, AV& b, unsigned w)
{
    AV v;
    if (a.f && b.f)
    {
        TM d   = tadd(b.t, a.t, -1);
        TM t   = a.t;
        t.err += magT(d) + d.err;
        v      = fromT(t, 0);
        v.lo   = max(v.lo, min(a.lo, b.lo));
        v.hi   = min(v.hi, max(a.hi, b.hi));
        v.sg   = a.sg == b.sg ? a.sg : 2;
    }
    if (w <= 64 && ieval(a, w) && ieval(b, w))
    {
        AV q = fromI(min(a.il, b.il), max(a.ih, b.ih), w);
        if (v.f) { v.i = q.i; v.il = q.il; v.ih = q.ih; }
        else v = q;
    }
    return v;
}
static int cmpI(I128 al, I128 ah, I128 bl, I128 bh, bool strict) // 1 true, 0 false, -1 unknown
{
    if (strict) return ah < bl ? 1 : al >= bh ? 0 : -1;
    return ah <= bl ? 1 : al > bh ? 0 : -1;
}
static I128 uns(I128 v, unsigned w) { return v < 0 ? v + ((I128)1 << w) : v; }
static AV b1(int r) { return r < 0 ? AV() : fromBits(APInt(1, r)); }
// e as an exclusive or of other nodes, cancelling equal ones
static void xflat(const Expr* e, map<const Expr*, bool>& l, APInt& c, int depth = 0)
{
    AV& v = ev(e);
    if (v.k) { c ^= v.bits; return; }
    if (depth < 60)
    {
        if (e->op == OXor) { xflat(e->k[0], l, c, depth + 1); xflat(e->k[1], l, c, depth + 1); return; }
        if (e->op == OFNeg) { xflat(e->k[0], l, c, depth + 1); c ^= APInt::getSignMask(e->w); return; }
        if (e->op == OAnd || e->op == OOr)
            for (int j = 0; j < 2; j++)
            {
                AV& m = ev(e->k[j]);
                if (!m.k) continue;
                if (e->op == OAnd ? m.bits.isZero() : m.bits.isAllOnes()) { c ^= m.bits; return; }
                if (e->op == OAnd ? m.bits.isAllOnes() : m.bits.isZero()) { xflat(e->k[1 - j], l, c, depth + 1); return; }
            }
        if (e->op == OIte)
        {
            AV& q = ev(e->k[0]);
            if (q.k) { xflat(e->k[q.bits.getBoolValue() ? 1 : 2], l, c, depth + 1); return; }
        }
    }
    if (!l.emplace(e, true).second) l.erase(e);
}
static AV one(const Expr* e)
{
    unsigned w = e->w;
    switch (e->op)
    {
    case OConst: return fromBits(*e->c);
    case OUndef: return AV();
    case OSym:
    {
        auto it = find(vars.begin(), vars.end(), e->aux);
        if (it == vars.end()) return AV();
        int v  = it - vars.begin();
        LD lo = B->lo[v], hi = B->hi[v];
        if (!syms[e->aux].isF) return fromI((I128)lo, (I128)hi, w);
        TM t   = tconst((lo + hi) / 2);
        for (int i = 1; i <= NV; i++)
            if (expo[i][v] == 1) t.c[i] = (hi - lo) / 2;
        t.err = fabsl(t.c[0]) * SL * 2;
        AV r  = fromT(t, 0);
        r.lo = lo; r.hi = hi;
        r.sg = signbit(lo) == signbit(hi) ? signbit(lo) : 2;
        return r;
    }
    default: break;
    }
    if (e->op == OIte)
    {
        AV& c = ev(e->k[0]);
        if (c.k) return ev(e->k[c.bits.getBoolValue() ? 1 : 2]);
        ev(e->k[1]);
        ev(e->k[2]);
        AV a = memo[e->k[1]], b = memo[e->k[2]];
        return join(a, b, w);
    }
    bool allk = e->nk > 0;
    for (int i = 0; i < e->nk; i++) { AV& a = ev(e->k[i]); allk &= a.k; }
    AV* K[3] = {};
    for (int i = 0; i < e->nk; i++) K[i] = &memo.find(e->k[i])->second;
    if (allk && e->op != OXAddR && e->op != OXMulR && e->op != OFun)
    {
        Assign none;
        Evaluator E(none);
        for (int i = 0; i < e->nk; i++) E.memo.emplace(e->k[i], K[i]->bits);
        return fromBits(E.eval(e));
    }
    auto F  = [&](int i) { return K[i]->f; };
    auto W  = [&](int i) -> unsigned { return e->k[i]->w; };
    auto I  = [&](int i) { return W(i) <= 64 && ieval(*K[i], W(i)); };
    switch (e->op)
    {
    case OFAdd: case OFSub:
    {
        if (!F(0) || !F(1)) return AV();
        bool sub = e->op == OFSub;
        unsigned char s0 = K[0]->sg, s1 = K[1]->sg;
        if (sub && s1 != 2) s1 = 1 - s1;
        return rounded(tadd(K[0]->t, K[1]->t, sub ? -1 : 1), w, s0 == s1 ? s0 : 2);
    }
    case OXAddR: if (!F(0) || !F(1)) return AV(); return fromT(tadd(K[0]->t, K[1]->t, 1), 0);
    case OXMulR: if (!F(0) || !F(1)) return AV(); return fromT(tmul(K[0]->t, K[1]->t), 0);
    case OFMul:
    {
        if (!F(0) || !F(1)) return AV();
        unsigned char s = K[0]->sg == 2 || K[1]->sg == 2 ? 2 : K[0]->sg ^ K[1]->sg;
        for (int i = 0; i < 2; i++)
            if (K[i]->k)
            {
                int ex;
                if (fabsl(frexpl(K[i]->lo, &ex)) == 0.5L)
                {
                    TM t = tscale(K[1 - i]->t, K[i]->lo);
                    t.err += tiny(w);
                    return fromT(t, w, s);
                }
            }
        TM t = e->k[0] == e->k[1] ? tmul(K[0]->t, K[0]->t) : tmul(K[0]->t, K[1]->t);
        AV r = rounded(t, w, e->k[0] == e->k[1] ? 0 : s);
        if (r.f && e->k[0] == e->k[1]) r.lo = max(r.lo, (LD)0);
        return r;
    }
    case OFma:
    {
        if (!F(0) || !F(1) || !F(2)) return AV();
        unsigned char s = K[0]->sg == 2 || K[1]->sg == 2 ? 2 : K[0]->sg ^ K[1]->sg;
        return rounded(tadd(tmul(K[0]->t, K[1]->t), K[2]->t, 1), w, s == K[2]->sg ? s : 2);
    }
    case OFDiv:
    {
        TM r;
        if (!F(0) || !F(1) || !trecip(*K[1], r)) return AV();
        unsigned char s = K[0]->sg == 2 || K[1]->sg == 2 ? 2 : K[0]->sg ^ K[1]->sg;
        return rounded(tmul(K[0]->t, r), w, s);
    }
    case OFNeg: return fneg(*K[0]);
    case OFAbs: return fabs_(*K[0]);
    case OFSqrt:
    {
        TM r;
        if (!F(0)) return AV();
        if (K[0]->lo > 0) { if (!tpowc(*K[0], 0.5L, r)) return AV(); AV v = rounded(r, w, 0); if (v.f) v.lo = max(v.lo, (LD)0); return v; }
        if (K[0]->lo < 0) return AV();
        AV v = fromIv(0, sqrtl(K[0]->hi), w);
        v    = v.f ? rounded(v.t, w, K[0]->sg) : v;
        if (v.f) v.lo = max(v.lo, (LD)0);
        return v;
    }
    case OFPExt: { AV v = *K[0]; v.i = v.k = false; return v; }
    case OFPTrunc: if (!F(0)) return AV(); return rounded(K[0]->t, 32, K[0]->sg);
    case OFRound:
    {
        if (!F(0)) return AV();
        auto rd = [&](LD x) -> LD { switch (e->aux) { case RFloor: return floorl(x); case RCeil: return ceill(x); case RTrunc: return truncl(x); case RNearInt: return nearbyintl(x); default: return roundl(x); } };
        LD l = rd(K[0]->lo), h = rd(K[0]->hi);
        if (l == h)
        {
            AV v = tryConst(fromIv(l, l, w), w);
            if (l == 0 && K[0]->sg == 0) return fromBits(APInt(w, 0));
            if (l == 0) { v = fromIv(0, 0, w); v.sg = K[0]->sg; }
            return v.k ? v : tryConst([&] { v.lo = v.hi = l; return v; }(), w);
        }
        if (h - l > 64) // keep the correlation with the argument
        {
            TM t = K[0]->t;
            t.err += 1;
            AV v = fromT(t, w, K[0]->sg);
            v.lo = max(v.lo, l); v.hi = min(v.hi, h);
            return v;
        }
        AV v = fromIv(l, h, w);
        if (v.sg == 2 && K[0]->sg != 2) v.sg = K[0]->sg;
        return v;
    }
    case OFPToSI: case OFPToUI:
    {
        if (!F(0)) return AV();
        LD l = truncl(K[0]->lo), h = truncl(K[0]->hi);
        LD lim = ldexpl(1, w - 1);
        if (e->op == OFPToUI ? (l < 0 || h >= lim) : (l < -lim || h >= lim)) return AV();
        return fromI((I128)l, (I128)h, w);
    }
    case OSIToFP: case OUIToFP:
    {
        if (!I(0)) return AV();
        I128 l = K[0]->il, h = K[0]->ih;
        if (e->op == OUIToFP && l < 0) return AV();
        AV v = fromIv((LD)l, (LD)h, w);
        if (v.f && max(fabsl(v.lo), fabsl(v.hi)) > ldexpl(1, w == 32 ? 24 : 53)) v = rounded(v.t, w);
        if (v.f) v.sg = l >= 0 ? 0 : h < 0 ? 1 : 2;
        return v;
    }
    case OFun:
    {
        vector<const AV*> x;
        for (int i = 0; i < e->nk; i++) x.push_back(K[i]);
        TM o;
        if (!funT(funNames[e->aux], x, o)) return AV();
        return rounded(tscale(o, 1), w); // the library function is within an ulp
    }
    case OFCmp:
    {
        for (int j = 0; j < 2; j++) // infinite and NaN constants
            if (K[j]->k && !F(j) && F(1 - j))
            {
                double x = W(j) == 32 ? bf32(K[j]->bits.getZExtValue()) : bf64(K[j]->bits.getZExtValue());
                if (isnan(x)) return b1(e->aux == 3);
                return b1(e->aux == 0 || e->aux == 3 ? 0 : (x > 0) == (j == 1));
            }
        if (!F(0) || !F(1)) return AV();
        if (e->aux == 3) return b1(0);
        LD al = K[0]->lo, ah = K[0]->hi, bl = K[1]->lo, bh = K[1]->hi;
        TM d  = tadd(K[0]->t, K[1]->t, -1);
        LD r  = rad(d) + d.err, dl = d.c[0] - r, dh = d.c[0] + r;
        switch (e->aux)
        {
        case 0: return b1(ah < bl || bh < al || dl > 0 || dh < 0 ? 0 : al == ah && bl == bh && al == bl ? 1 : -1);
        case 1: return b1(ah < bl || dh < 0 ? 1 : al >= bh || dl >= 0 ? 0 : -1);
        default: return b1(ah <= bl || dh <= 0 ? 1 : al > bh || dl > 0 ? 0 : -1);
        }
    }
    case OEq:
        if (!I(0) || !I(1)) return AV();
        if (K[0]->ih < K[1]->il || K[1]->ih < K[0]->il) return b1(0);
        return AV();
    case OSlt: if (!I(0) || !I(1)) return AV(); return b1(cmpI(K[0]->il, K[0]->ih, K[1]->il, K[1]->ih, true));
    case OSle: if (!I(0) || !I(1)) return AV(); return b1(cmpI(K[0]->il, K[0]->ih, K[1]->il, K[1]->ih, false));
    case OUlt: case OUle:
    {
        if (!I(0) || !I(1)) return AV();
        for (int i = 0; i < 2; i++) if (K[i]->il < 0 && K[i]->ih >= 0) return AV();
        auto U = [&](I128 v) { return uns(v, W(0)); };
        return b1(cmpI(U(K[0]->il), U(K[0]->ih), U(K[1]->il), U(K[1]->ih), e->op == OUlt));
    }
    case OAdd: if (!I(0) || !I(1)) return AV(); return fromI(K[0]->il + K[1]->il, K[0]->ih + K[1]->ih, w);
    case OSub: if (!I(0) || !I(1)) return AV(); return fromI(K[0]->il - K[1]->ih, K[0]->ih - K[1]->il, w);
    case OMul:
    {
        if (!I(0) || !I(1) || w > 62) return AV();
        I128 p[4] = { K[0]->il * K[1]->il, K[0]->il * K[1]->ih, K[0]->ih * K[1]->il, K[0]->ih * K[1]->ih };
        return fromI(*min_element(p, p + 4), *max_element(p, p + 4), w);
    }
    case OAShr:
        if (!I(0) || !K[1]->k || K[1]->bits.uge(w)) return AV();
        return fromI(K[0]->il >> (int)K[1]->bits.getZExtValue(), K[0]->ih >> (int)K[1]->bits.getZExtValue(), w);
    case OLShr:
    {
        if (!I(0) || !K[1]->k || K[1]->bits.uge(w)) return AV();
        if (K[0]->il < 0 && K[0]->ih >= 0) return AV();
        int n = (int)K[1]->bits.getZExtValue();
        return fromI(uns(K[0]->il, w) >> n, uns(K[0]->ih, w) >> n, w);
    }
    case OShl:
    {
        if (!I(0) || !K[1]->k || K[1]->bits.uge(w)) return AV();
        int n = (int)K[1]->bits.getZExtValue();
        return fromI(K[0]->il << n, K[0]->ih << n, w);
    }
    case OZExt:
        if (!I(0)) return AV();
        if (K[0]->il < 0 && K[0]->ih >= 0) return fromI(0, ((I128)1 << W(0)) - 1, w);
        return fromI(uns(K[0]->il, W(0)), uns(K[0]->ih, W(0)), w);
    case OSExt: if (!I(0)) return AV(); return fromI(K[0]->il, K[0]->ih, w);
    case OExtract:
    {
        if (!I(0)) { return AV(); }
        I128 l = K[0]->il >> e->aux, h = K[0]->ih >> e->aux; // bits aux.. as a signed number
        unsigned left = W(0) - e->aux;
        I128 lim = (I128)1 << (w - 1);
        if (K[0]->f && w < left && l != h)
        {
            // part of an exponent: decided together with the whole exponent
            AV hi = ev(toExpr(vExtract(fromExpr(e->k[0]), e->aux, left)));
            if (hi.k) return fromBits(hi.bits.trunc(w));
        }
        if (l >= -lim && h < lim) return fromI(l, h, w);
        if (w == left) return fromI(l, h, w);
        if ((l >> w) == (h >> w))
        {
            I128 m = ((I128)1 << w) - 1;
            I128 a = l & m, b = h & m;
            if (a >= lim) return fromI(a - 2 * lim, b - 2 * lim, w);
            if (b < lim) return fromI(a, b, w);
        }
        return AV();
    }
    case OConcat:
    {
        if (w > 64 || !K[0]->k) return AV();
        I128 h = K[0]->il;
        if (!I(1)) return AV();
        unsigned lw = W(1);
        if (K[1]->il < 0 && K[1]->ih >= 0) return AV();
        return fromI((h << lw) + uns(K[1]->il, lw), (h << lw) + uns(K[1]->ih, lw), w);
    }
    case OAnd: case OOr: case OXor:
    {
        if (e->op == OXor && w > 1)
        {
            map<const Expr*, bool> l;
            APInt c(w, 0);
            xflat(e->k[0], l, c, 1);
            xflat(e->k[1], l, c, 1);
            if (l.empty()) return fromBits(c);
            if (l.size() == 1)
            {
                AV x = ev(l.begin()->first);
                if (c.isZero()) return x;
                if (c.isSignMask() && x.f && (w == 32 || w == 64)) return fneg(x);
            }
        }
        for (int j = 0; j < 2; j++)
        {
            AV &m = *K[j], &x = *K[1 - j];
            if (!m.k) continue;
            const APInt& c = m.bits;
            if (e->op == OAnd)
            {
                if (c.isZero()) return fromBits(c);
                if (c.isAllOnes()) return x;
                if (c == APInt::getSignedMaxValue(w) && x.f) return fabs_(x);
                if (c.isSignMask() && (w == 32 || w == 64) && x.f && x.sg != 2) return fromBits(x.sg ? c : APInt(w, 0));
                if (I(1 - j))
                {
                    // contiguous low mask
                    if (w <= 64 && (c + 1).isPowerOf2())
                    {
                        I128 M = (I128)c.getZExtValue();
                        unsigned n = c.countr_one();
                        if ((x.il >> n) == (x.ih >> n)) return fromI(x.il & M, x.ih & M, w);
                        return fromI(0, M, w);
                    }
                    // mask of the high bits
                    if (w <= 64 && (-c).isPowerOf2())
                    {
                        I128 M = (I128)c.getSExtValue();
                        return fromI(x.il & M, x.ih & M, w);
                    }
                    // contiguous field
                    unsigned tz = c.countr_zero();
                    APInt c2 = c.lshr(tz);
                    if (w <= 64 && (c2 + 1).isPowerOf2() && x.il >= 0)
                    {
                        I128 M = (I128)c.getZExtValue();
                        unsigned n = w - c.countl_zero();
                        if ((x.il >> n) == (x.ih >> n)) return fromI(x.il & M, x.ih & M, w);
                        return fromI(0, M, w);
                    }
                    if (x.il == x.ih) return fromI(x.il & (I128)c.getSExtValue(), x.il & (I128)c.getSExtValue(), w);
                }
            }
            else if (e->op == OOr)
            {
                if (c.isZero()) return x;
                if (c.isAllOnes()) return fromBits(c);
                if (c.isSignMask() && x.f) return fneg(fabs_(x));
                if (I(1 - j) && w <= 64 && x.il >= 0)
                {
                    unsigned tz = c.countr_zero();
                    if (x.ih < ((I128)1 << tz)) return fromI(x.il + (I128)c.getSExtValue(), x.ih + (I128)c.getSExtValue(), w);
                }
            }
            else
            {
                if (c.isZero()) return x;
                if (c.isSignMask() && x.f && (w == 32 || w == 64)) return fneg(x);
                if (c.isAllOnes() && I(1 - j)) return fromI(-1 - x.ih, -1 - x.il, w);
                if (w == 1 && x.k) return fromBits(x.bits ^ c);
            }
        }
        if (e->op == OAnd && w == 1) for (int j = 0; j < 2; j++) if (K[j]->k && K[j]->bits.isZero()) return fromBits(APInt(1, 0));
        if (e->op == OOr && w == 1) for (int j = 0; j < 2; j++) if (K[j]->k && K[j]->bits.isOne()) return fromBits(APInt(1, 1));
        return AV();
    }
    case OUDiv: case OSDiv: case OURem: case OSRem:
    {
        if (!I(0) || !K[1]->k || K[1]->il <= 0 || K[0]->il < 0) return AV();
        I128 d = K[1]->il;
        if (e->op == OUDiv || e->op == OSDiv) return fromI(K[0]->il / d, K[0]->ih / d, w);
        if (K[0]->il / d == K[0]->ih / d) return fromI(K[0]->il % d, K[0]->ih % d, w);
        return fromI(0, d - 1, w);
    }
    default: return AV();
    }
}
static AV& ev(const Expr* e0)
{
    auto it = memo.find(e0);
    if (it != memo.end()) return it->second;
    // explicit stack for deep chains of everything but ite
    vector<const Expr*> st{ e0 };
    while (!st.empty())
    {
        const Expr* e = st.back();
        if (memo.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        if (e->op == OIte)
        {
            if (!memo.count(e->k[0])) { st.push_back(e->k[0]); continue; }
            AV& c = memo[e->k[0]];
            for (int i = 1; i < 3; i++)
                if ((!c.k || c.bits.getBoolValue() == (i == 1)) && !memo.count(e->k[i])) { st.push_back(e->k[i]); ready = false; }
        }
        else
            for (int i = 0; i < e->nk; i++)
                if (!memo.count(e->k[i])) { st.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        AV v = one(e);
        if (!v.k && e->nk)
        {
            AV& x = memo[e->k[0]];
            bool cmp = e->w == 1 && e->nk == 2 && e->k[0]->w > 1;
            bool exi = !v.f && v.i && v.ih == v.il + 1 && x.f && !x.k && e->op != OIte;
            bool rnd = e->op == OFRound && v.f && v.hi - v.lo > 0.5L && v.hi - v.lo < 1.5L;
            if (cmp || exi || rnd)
            {
                auto fo = forced.find(e);
                if (fo != forced.end()) v = fo->second;
                else if (cmp) undecided.push_back({ e, fromBits(APInt(1, 0)), fromBits(APInt(1, 1)) });
                else if (exi) undecided.push_back({ e, fromI(v.il, v.il, e->w), fromI(v.ih, v.ih, e->w) });
                else
                {
                    auto C = [&](LD q) { return fromBits(e->w == 32 ? APInt(32, fb32((float)q)) : APInt(64, fb64((double)q))); };
                    undecided.push_back({ e, C(nearbyintl(v.lo)), C(nearbyintl(v.hi)) });
                }
            }
        }
        if (v.f && !v.k) v = tryConst(v, e->w);
        if (!v.k && v.i && v.il == v.ih && !v.f) v = fromI(v.il, v.il, e->w);
        memo[e] = v;
        st.pop_back();
    }
    return memo[e0];
}
// ---------------------------------------------------------------- driver
struct Leaf { TM d; LD tol; };
extern z3::context& z3ctx();
static bool flush(vector<Leaf>& L)
{
    if (L.empty()) return true;
    auto t0 = chrono::steady_clock::now();
    SS.queries++;
    SS.lra++;
    z3::solver s(z3ctx(), "QF_LRA");
    vector<z3::expr> m;
    z3::expr e = z3ctx().real_const("err");
    s.add(e >= -1 && e <= 1);
    for (int i = 1; i < NM; i++)
    {
        m.push_back(z3ctx().real_const(("d" + to_string(i)).c_str()));
        s.add(m.back() >= -1 && m.back() <= 1);
    }
    z3::expr_vector any(z3ctx());
    for (auto& l : L)
    {
        // in units of the tolerance / 2^30, coefficients rounded to integers and the rounding added to the error
        LD u = l.tol * 0x1p-30L;
        auto iv = [&](LD x) { return z3ctx().real_val(to_string((long long)x).c_str()); };
        z3::expr_vector t(z3ctx());
        LD E = ceill(l.d.err / u * (1 + 1e-12L)) + 1;
        for (int i = 0; i < NM; i++)
        {
            LD q = nearbyintl(l.d.c[i] / u);
            E += q == l.d.c[i] / u ? 0 : 1;
            if (q == 0) continue;
            t.push_back(i ? iv(q) * m[i - 1] : iv(q));
        }
        t.push_back(iv(E) * e);
        z3::expr tot = z3::sum(t), T = iv(0x1p30L);
        any.push_back(tot > T || tot < -T);
    }
    s.add(z3::mk_or(any));
    auto q = s.check();
    SS.time += chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    if (q == z3::unsat) SS.unsat++; else if (q == z3::sat) SS.sat++; else SS.unknown++;
    L.clear();
    return q == z3::unsat;
}
static LD mid(LD a, LD b, bool isF, unsigned w)
{
    if (!isF) return floorl((a + b) / 2);
    auto R = [&](LD x) -> LD { return w == 32 ? (LD)(float)x : (LD)(double)x; };
    bool na = signbit(a), nb = signbit(b);
    if (na != nb) return 0; // caller splits at zero
    LD x = fabsl(a), y = fabsl(b);
    LD l = min(x, y), h = max(x, y);
    if (l > 0 ? h / l > 4 : h < 1e-3L)
    {
        if (w == 32) { LD m = bf32((fb32((float)l) + fb32((float)h)) / 2); return na ? -m : m; }
        u64 p = fb64((double)l), q = fb64((double)h);
        LD m = bf64(p + (q - p) / 2);
        return na ? -m : m;
    }
    return R((a + b) / 2);
}
static LD nextF(LD x, unsigned w) { return w == 32 ? (LD)nextafterf((float)x, INFINITY) : (LD)nextafter((double)x, INFINITY); }
static APInt encS(u32 s, LD v)
{
    auto& si = syms[s];
    return !si.isF ? APInt(si.w, (u64)(i64)v, true) : si.w == 32 ? APInt(32, fb32((float)v)) : APInt(64, fb64((double)v));
}
FnResult decideFn(const Expr* a, const Expr* ref, double abstol, double reltol, unsigned maxBoxes)
{
    FnResult R;
    vector<u32> sy;
    for (u32 s : symsOf(a)) sy.push_back(s);
    for (u32 s : symsOf(ref)) if (find(sy.begin(), sy.end(), s) == sy.end()) sy.push_back(s);
    for (u32 s : sy)
        if (s == ~0u || !syms[s].ranged) { R.why = "symbol without a range"; return R; }
    if (sy.size() > 6) { R.why = "too many symbols"; return R; }
    setupMonos(max<int>(1, sy.size()));
    vars = sy;
    auto holdsAt = [&](const vector<LD>& p) {
        Assign m;
        for (size_t i = 0; i < sy.size(); i++) m[sy[i]] = encS(sy[i], p[i]);
        Evaluator E(m);
        double x = bf64(E.eval(a).getZExtValue()), r = bf64(E.eval(ref).getZExtValue());
        bool ok;
        if (isnan(x) || isnan(r)) ok = isnan(x) && isnan(r);
        else if (isinf(x) || isinf(r)) ok = x == r;
        else ok = fabs(x - r) <= abstol + reltol * fabs(r);
        R.points++;
        if (!ok) { R.res = RSat; R.corner = m; R.got = x; R.want = r; }
        return ok;
    };
    vector<Box> st;
    Box b0;
    for (u32 s : sy)
    {
        LD lo = syms[s].lo, hi = syms[s].hi;
        if (syms[s].isF && syms[s].w == 32)
        {
            float l = (float)lo, h = (float)hi;
            if ((LD)l < lo) l = nextafterf(l, INFINITY);
            if ((LD)h > hi) h = nextafterf(h, -INFINITY);
            lo = l; hi = h;
        }
        b0.lo.push_back(lo);
        b0.hi.push_back(hi);
    }
    st.push_back(b0);
    vector<Leaf> leaves;
    size_t boxes = 0;
    while (!st.empty())
    {
        Box b = st.back();
        st.pop_back();
        if (++boxes > maxBoxes) { R.why = "too many parts"; R.boxes = boxes; return R; }
        // split at zero first
        bool z = false;
        for (size_t i = 0; i < sy.size() && !z; i++)
            if (syms[sy[i]].isF && signbit(b.lo[i]) != signbit(b.hi[i]))
            {
                Box n = b, p = b;
                n.hi[i] = -0.0L;
                p.lo[i] = 0.0L;
                st.push_back(n);
                st.push_back(p);
                z = true;
            }
        if (z) continue;
        bool pt = true;
        for (size_t i = 0; i < sy.size(); i++) pt &= b.lo[i] == b.hi[i];
        if (pt) { if (!holdsAt(b.lo)) return R; continue; }
        B = &b;
        TM d;
        AV va, vr;
        bool have = false;
        auto claim = [&](Leaf& out) {
            memo.clear();
            undecided.clear();
            va   = ev(a);
            vr   = ev(ref);
            have = va.f && vr.f;
            if (!have) return false;
            d      = tadd(va.t, vr.t, -1);
            LD mr  = vr.lo <= 0 && vr.hi >= 0 ? 0 : min(fabsl(vr.lo), fabsl(vr.hi));
            LD tol = abstol + reltol * mr;
            LD tot = fabsl(d.c[0]) + rad(d) + d.err;
            if (!(tot * (1 + 1e-7L) < tol)) return false;
            R.worst = max(R.worst, (double)(tot / tol));
            out = { d, tol };
            return true;
        };
        double w0 = R.worst;
        vector<Leaf> got(1);
        bool ok = claim(got[0]);
        if (!ok && !undecided.empty() && undecided.size() <= 6)
        {
            // a small box on the border of two branches: the claim for every combination of outcomes
            bool small = true;
            for (size_t i = 0; i < sy.size(); i++) small &= b.hi[i] - b.lo[i] <= 0.02L * max({ fabsl(b.lo[i]), fabsl(b.hi[i]), 1e-7L, sy.size() > 1 ? 0.1L * (b0.hi[i] - b0.lo[i]) : 0 });
            if (small)
            {
                TM d1 = d;
                AV va1 = va, vr1 = vr;
                bool have1 = have;
                auto memo1 = memo;
                got.clear();
                function<bool(int)> both = [&](int depth) {
                    if (undecided.empty() || depth >= 5) return false;
                    Choice c = undecided[0];
                    for (int q = 0; q < 2; q++)
                    {
                        forced[c.e] = q ? c.b : c.a;
                        Leaf l;
                        if (claim(l)) got.push_back(l);
                        else if (!both(depth + 1)) return false;
                    }
                    forced.erase(c.e);
                    return true;
                };
                ok = both(0);
                forced.clear();
                if (!ok) { d = d1; va = va1; vr = vr1; have = have1; memo = memo1; R.worst = w0; }
            }
        }
        if (ok)
        {
            R.leaves++;
            for (auto& l : got) leaves.push_back(l);
            if (leaves.size() >= 24 && !flush(leaves)) { R.why = "solver disagrees"; return R; }
            continue;
        }
        static const char* dbg = getenv("KSYM_TMDBG");
        if (dbg && (boxes & (boxes - 1)) == 0)
        {
            fprintf(stderr, "box %zu [%.9Lg,%.9Lg] ", boxes, b.lo[0], b.hi[0]);
            if (have)
            {
                fprintf(stderr, "value in [%.9Lg,%.9Lg] err %.3Lg, reference in [%.9Lg,%.9Lg]\n", va.lo, va.hi, va.t.err, vr.lo, vr.hi);
                const Expr* e = va.t.err > vr.t.err ? a : ref; // where the uncertainty comes from
                for (int n = 0; n < 40; n++)
                {
                    const Expr* nx = nullptr;
                    LD w = 0;
                    for (int i = 0; i < e->nk; i++) { auto it = memo.find(e->k[i]); if (it != memo.end() && it->second.f && it->second.t.err > w) w = it->second.t.err, nx = e->k[i]; }
                    if (!nx || w < memo[e].t.err * 1e-3L) break;
                    e = nx;
                }
                fprintf(stderr, "   from %s\n", exprStr(e, 3).c_str());
            }
            else
            {
                const Expr* e = va.f ? ref : a;
                for (;;)
                {
                    const Expr* nx = nullptr;
                    for (int i = 0; i < e->nk && !nx; i++) { auto it = memo.find(e->k[i]); if (it != memo.end() && !it->second.f && !it->second.i && !it->second.k) nx = e->k[i]; }
                    if (!nx) break;
                    if (getenv("KSYM_TMDBG2")) fprintf(stderr, "  via %s\n", exprStr(e, 3).c_str());
                    e = nx;
                }
                fprintf(stderr, "stuck at %s:", exprStr(e, 3).c_str());
                for (int i = 0; i < e->nk; i++) { auto it = memo.find(e->k[i]); if (it != memo.end()) { auto& v = it->second; fprintf(stderr, " {f%d i%d k%d s%d %.9Lg %.9Lg | %lld %lld}", v.f, v.i, v.k, v.sg, v.lo, v.hi, (long long)v.il, (long long)v.ih); } }
                fprintf(stderr, "\n");
            }
        }
        // a concrete look before dividing
        vector<LD> c;
        for (size_t i = 0; i < sy.size(); i++)
        {
            c.push_back(mid(b.lo[i], b.hi[i], syms[sy[i]].isF, syms[sy[i]].w));
            if (syms[sy[i]].isF && c[i] >= b.hi[i] && b.lo[i] < b.hi[i])
                c[i] = syms[sy[i]].w == 32 ? (LD)nextafterf((float)b.hi[i], -INFINITY) : (LD)nextafter((double)b.hi[i], -INFINITY);
        }
        if (!holdsAt(c)) return R;
        // which variable: of those in the expression that stopped the evaluation, if any
        vector<u32> cand;
        if (!have && sy.size() > 1)
        {
            const Expr* e = undecided.empty() ? nullptr : undecided[0].e;
            if (!e)
            {
                e = va.f ? ref : a;
                for (;;)
                {
                    const Expr* nx = nullptr;
                    for (int i = 0; i < e->nk && !nx; i++) { auto it = memo.find(e->k[i]); if (it != memo.end() && !it->second.f && !it->second.i && !it->second.k) nx = e->k[i]; }
                    if (!nx) break;
                    e = nx;
                }
            }
            for (u32 q : symsOf(e)) cand.push_back(q);
        }
        const bool byWidth = have && sy.size() > 1 && d.err > rad(d); // the remainder, not the slope
        int best = -1;
        for (int pass = 0; pass < 2 && best < 0; pass++)
        {
            LD bw = -1;
            for (size_t i = 0; i < sy.size(); i++)
            {
                if (b.lo[i] == b.hi[i]) continue;
                if (!pass && !cand.empty() && find(cand.begin(), cand.end(), sy[i]) == cand.end()) continue;
                LD x = 0;
                if (have) for (int j = 1; j < NM; j++)
                {
                    if (!expo[j][i]) continue;
                    if (!byWidth) { x += max(fabsl(d.c[j]), max(fabsl(va.t.c[j]), fabsl(vr.t.c[j])) * 1e-3L); continue; }
                    int dg = 0;
                    for (int q : expo[j]) dg += q;
                    if (dg >= max(2, DG - 2) && (boxes & 1)) x += max(fabsl(va.t.c[j]), fabsl(vr.t.c[j]));
                }
                if (!have || x == 0)
                {
                    LD m = max(fabsl(b.lo[i]), fabsl(b.hi[i]));
                    x    = (b.hi[i] - b.lo[i]) / max(m, sy.size() > 1 ? 1e-3L * (b0.hi[i] - b0.lo[i]) : 0x1p-16000L);
                }
                if (!pass && !cand.empty() && x < 1e-9L) continue;
                if (x > bw) { bw = x; best = i; }
            }
        }
        LD m = c[best];
        bool isF = syms[sy[best]].isF;
        LD nx = isF ? nextF(m, syms[sy[best]].w) : m + 1;
        Box l = b, h = b;
        l.hi[best] = m;
        h.lo[best] = nx;
        if (nx == 0) h.lo[best] = signbit(b.hi[best]) ? -0.0L : 0.0L;
        if (nx <= b.hi[best]) st.push_back(h);
        st.push_back(l);
    }
    R.boxes = boxes;
    if (!flush(leaves)) { R.why = "solver disagrees"; return R; }
    R.res = RUnsat;
    return R;
}
